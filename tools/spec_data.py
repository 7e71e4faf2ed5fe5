IN = ["inputs"]
HI = ["histories", "inputs"]
NOTE = ("Held on every execution of this run under AddressSanitizer + UndefinedBehaviorSanitizer; the evidence file counts "
        "the monitored events and the distinct cases. Trusts the reference model in the harness, g++ and the sanitizers; "
        "says nothing about inputs outside the stated domain or not generated.")
TSN = (" The concurrent part runs under ThreadSanitizer, which reports races on the schedules and accesses that occurred.")

prop("C01", "Quoting text and reading it back returns exactly the same text",
     "For every string without NUL bytes (any other byte value, any length), quoting it and unquoting the result returns the "
     "original string, and conditional quoting followed by conditional unquoting of a string that does not itself begin and end with a "
     "double quote does too; a quoted string never contains a raw control character (a byte below 32) or an unescaped interior quote, and tokenizing it "
     "yields the original as one token. Unquoting, decoding or tokenizing arbitrary, even malformed, bytes always terminates and "
     "never reads outside the given text.",
     IN, "all byte strings over 1..255, of any length, well-formed or not",
     "The tests quote one fixed string; they never use bytes above 127, trailing backslashes, lone quotes or long text.",
     ["flut/string_tools.cpp", "flut/char_stream.cpp"],
     [("escape/unescape of quote, backslash and control bytes", "flut/string_tools.cpp encode_char/decode_char/quoted/try_unquoted"),
      ("quote-aware tokenizer", "flut/char_stream.cpp char_stream::get_token")],
     ["quoted/try_quoted/try_unquoted/needs_quotes/encode_char/decode_char return values", "get_token on the quoted text"],
     technique="round-trip monitor + ASan/UBSan over generated and coverage-fuzzed strings", note=NOTE)

prop("C02", "Stream reads deliver the text exactly once, in order, and signal end and failure",
     "A sequence of number, word, line, character and token reads on a character stream returns exactly the successive pieces of the "
     "text in order, with delimiters skipped, operators as separate tokens and quoted parts decoded, none of it lost, duplicated or "
     "read past the end. A number read that finds no number sets fail, consuming everything sets eof, good is exactly neither, and a "
     "copied or moved stream keeps reading the same remaining text independently of the original.",
     HI, "all texts, delimiter/operator/quote sets and read sequences that stop at end or failure",
     "The tests tokenise a handful of literals; the property ranges over all texts and read sequences.",
     ["flut/char_stream.cpp", "flut/char_stream.hpp"],
     [("cursor and flag handling", "flut/char_stream.hpp process_end_pos/skip_delimiters/test_eof"),
      ("tokenizer", "flut/char_stream.cpp get_token/get_line/operator>>")],
     ["values returned by each read", "good()/eof()/fail() after each read"],
     technique="online reference-model monitor over read histories + ASan/UBSan", note=NOTE)

prop("C03", "String helpers return exactly the documented part of their argument",
     "For every string: trimming removes exactly the leading and/or trailing trim characters; splitting yields the maximal non-empty "
     "runs of non-separators in order; left/mid/right take exactly n characters, or with a negative n leave out exactly n at the other end; prefix and suffix tests hold exactly when "
     "the string starts or ends with the given text; key/value splitting cuts at the first separator; and folder + file name, and file "
     "name + extension, reassemble the original. Scanning typed values from text returns how many leading ones could be read and stores exactly those.",
     IN, "all strings, separator sets and counts (left/right counts within the string length)",
     "The existing tests check a few literals for split and trim only.",
     ["flut/string_tools.cpp", "flut/string_tools.hpp"],
     [("substring/search helpers", "flut/string_tools.cpp trim_str/split_str/left_of_str/right_of_str/make_key_value_str/get_filename_*"),
      ("typed scanning", "flut/string_tools.hpp scan_str/str_to_vec")],
     ["return values of the helpers"],
     technique="differential monitor against independent reference implementations + ASan/UBSan", note=NOTE)

prop("C04", "Formatted text is complete and exact, whatever its length",
     "A printf-style formatted string, and a message logged through a printf-style logging call, equals exactly what C's own "
     "formatting of the same format and arguments produces, for every combination of conversions and every resulting length. "
     "Nothing is truncated, padded or corrupted, and formatting never touches memory outside its buffers.",
     IN, "all formats/arguments; in particular result lengths around and far beyond any internal buffer size",
     "The tests only format short strings, so length limits are never reached.",
     ["flut/string_tools.cpp", "flut/system/log.cpp", "flut/system/log.hpp"],
     [("formatting into a buffer", "flut/string_tools.cpp stringf; flut/system/log.cpp log_vstring")],
     ["stringf result", "message received by a sink"],
     technique="differential monitor against libc formatting + ASan/UBSan", note=NOTE)

prop("C05", "Wildcard matching accepts exactly the names its pattern describes",
     "A name matches a pattern made of literal characters, '*' and '?' exactly when the whole name can be obtained by replacing every "
     "'*' with some (possibly empty) text and every '?' with one character. A pattern list matches exactly when at least one of its "
     "separated patterns does, searching a range returns the first matching element or the end, and selecting children of a property tree by pattern visits "
     "exactly the children whose key matches, in order.",
     IN, "all names and patterns over non-bracket characters, all delimiter-separated pattern lists",
     "The tests match two literals; the quantifier is over all names and patterns.",
     ["flut/string_tools.cpp", "flut/pattern_matcher.hpp", "flut/prop_node.hpp"],
     [("glob match", "flut/string_tools.cpp pattern_match"), ("pattern list", "flut/pattern_matcher.hpp pattern_matcher")],
     ["match results"],
     technique="differential monitor against a reference glob automaton + ASan/UBSan", note=NOTE)

prop("C06", "Path operations decompose and recompose every path consistently",
     "For every path: the file name is the text after the last separator, the stem and extension split that file name at its last dot, "
     "and the parent is what precedes the last separator; removing, replacing or reading one component never changes or mixes in another "
     "(a dot in a folder name is not an extension). Joining inserts exactly one separator unless the left side already ends in one, and "
     "'parent joined with file name' gives back the original path, up to the kind of separator at the joint, whenever the parent is not empty and no separators are repeated there. Two paths are equal exactly when their texts are.",
     IN, "all path texts over letters, dots and both separators, all operation sequences",
     "No existing test covers paths.",
     ["flut/system/path.cpp", "flut/system/path.hpp"],
     [("last separator / last dot search", "flut/system/path.cpp")],
     ["path accessors and operators"],
     technique="algebraic-law monitor against an independent reference + ASan/UBSan", note=NOTE)

prop("C07", "Saving a property tree and loading it back gives an equal tree",
     "Any property tree whose keys start with an ASCII letter, whatever other characters occur inside keys and values (quotes, braces, "
     "equals signs, percent signs, semicolons, newlines, tabs, bytes above 127, empty values), saved to the native text format, readable "
     "or compact, and loaded again, is equal to the original: same keys, values, order, duplicates, nesting, and nodes having both a value "
     "and children. Saving returns true exactly when the complete file was written, also when writing fails part of the way. The guarantee excludes NUL bytes, texts with leading or trailing whitespace, and a value on the root itself.",
     IN, "all trees (depth, width, duplicate keys) over all byte values 1..255",
     "No existing test saves or loads property trees.",
     ["flut/prop_node_tools.cpp", "flut/string_tools.cpp", "flut/char_stream.cpp", "flut/prop_node.cpp"],
     [("writer with quoting", "flut/prop_node_tools.cpp save_prop/write_prop_none"),
      ("recursive-descent reader", "flut/prop_node_tools.cpp parse_prop/read_prop_node/get_prop_token")],
     ["save_prop output file", "load_prop result compared with the original tree"],
     technique="save/load round-trip monitor with structural comparison + ASan/UBSan", note=NOTE)

prop("C08", "Property text has one meaning regardless of layout; malformed text is an error",
     "Parsing property text yields the same tree whatever comments, blank lines, indentation, trailing spaces, line-ending style and "
     "';' or newline separators are placed between its elements, and whether values are quoted or bare. Text that is malformed "
     "(a token that is neither a label nor the closing brace of a block, a block that is never closed, text that ends inside a block) or unreadable is reported through the error code when one is "
     "given, with a message, and by an exception otherwise; arbitrary bytes (nesting within the limits of the stack) never crash, hang or read out of bounds.",
     IN, "all trees x all layouts of them; all byte strings for the robustness part",
     "No existing test parses property text.",
     ["flut/prop_node_tools.cpp", "flut/char_stream.cpp"],
     [("tokenising and comment skipping", "flut/prop_node_tools.cpp get_prop_token"),
      ("error reporting", "flut/prop_node_tools.cpp parse_prop/load_prop")],
     ["parsed tree", "error_code / exception"],
     technique="metamorphic layout monitor against a reference tree, fuzzing, ASan/UBSan", note=NOTE)

prop("C09", "XML property files round-trip and bad XML is reported, not crashed on",
     "A property tree with a single root, XML-name keys, and nodes that hold either non-blank text or children, saved as XML and loaded "
     "again, is equal to the original, including markup characters and bytes above 127 in the text; attributes in a hand-written file appear as leading children. "
     "Loading arbitrary or truncated bytes as XML either returns a tree or reports an error (through the error code if given, else an exception with the same message), "
     "without memory errors.",
     IN, "all such trees; all byte strings for the robustness part",
     "No existing test uses XML.",
     ["flut/prop_node_tools.cpp"],
     [("conversion to and from XML nodes", "flut/prop_node_tools.cpp get_rapid_xml_node/set_rapid_xml_node/load_xml/save_xml")],
     ["save_xml output", "load_xml result / error"],
     technique="round-trip monitor and hostile-input runs under ASan/UBSan", note=NOTE)

prop("C10", "INI files round-trip, and comments and blank lines change nothing",
     "A two-level property tree (plain entries with non-empty values first, then non-empty groups of entries) with trimmed single-line keys, distinct within their group, without '=', '#' or "
     "'[' at the start and trimmed single-line values, saved as INI and loaded again, is equal to the original, with values containing '=' preserved. "
     "Inserting blank lines, whole-line comments and spaces around '=' into the file does not change what is loaded, and a line that is neither "
     "comment, group nor assignment raises an error.",
     IN, "all such trees and all placements of comments/blank lines",
     "No existing test uses INI files.",
     ["flut/prop_node_tools.cpp", "flut/string_tools.cpp"],
     [("line loop, group tracking", "flut/prop_node_tools.cpp load_ini/save_ini")],
     ["load_ini result"],
     technique="round-trip and metamorphic monitor + ASan/UBSan", note=NOTE)

prop("C11", "A property tree is an ordered tree of key/value pairs under every history",
     "Under any sequence of sets, appends, inserts, erases, clears, copies, moves, assignments (including assigning a node one of its own descendants or ancestors) and delimited-path writes, a property tree has exactly the keys, values, order and nesting of a plain ordered "
     "key/subtree list: lookup by key finds the first match, lookup by index and iteration follow insertion order, 'set' overwrites the "
     "first match or appends. Copies are deep and independent, equality is structural, missing keys yield the default, nothing, or an exception as asked, and a lookup "
     "on a constant tree never changes its contents. Printing a tree gives one line per node in tree order: its key indented by two spaces per level and padded to the widest key, followed by ' = ' and the value if it has one or has no children.",
     HI, "all operation histories over several live trees",
     "The existing tests do not build the property tree at all.",
     ["flut/prop_node.hpp", "flut/prop_node.cpp"],
     [("ordered child vector with first-match lookup", "flut/prop_node.hpp prop_node")],
     ["full tree comparison after each operation", "return values/exceptions of each call"],
     technique="online model-based monitor over operation histories + ASan/UBSan", note=NOTE)

prop("C12", "Values stored in a property tree or as text come back unchanged",
     "Integers of 16 bits and wider of either sign, strings, enums, paths, booleans and vectors of these (the children in order, whatever their keys), stored in a property tree (directly, under a "
     "key or under a delimited key) or converted to text, are read back exactly; floating-point scalars, 3-vectors, quaternions and "
     "transforms of them come back within half a unit of the sixth decimal. Ranges are read from 'a..b', single values and min/max or "
     "lower/upper children, and text that is no number raises an exception for 64-bit integer and floating-point types. Settings stored and read under the name of a variable use that name: what follows the last ':' of a qualified name without outer underscores, what follows m_ of a name that starts so without trailing underscores, any other name without outer underscores.",
     IN, "all values of each type; type boundaries and large vectors included",
     "The tests convert a few doubles; they never touch property trees or type limits.",
     ["flut/system/string_cast.hpp", "flut/prop_node.hpp", "flut/math/vec3_type.hpp", "flut/math/quat_type.hpp", "flut/math/bounds.hpp",
      "flut/math/transform.hpp"],
     [("type-directed conversion", "flut/system/string_cast.hpp string_cast; flut/prop_node.hpp prop_node_cast")],
     ["value written vs value read"],
     technique="round-trip monitor over boundary-heavy generated values + ASan/UBSan", note=NOTE)

prop("C13", "Access tracking reports exactly the settings nobody read",
     "After any sequence of reads on a property tree, a node counts as unaccessed exactly when, since it was created, copied, loaded or its marks were cleared, its value was not read, it was not iterated or searched for children, and it was not returned by a lookup that tolerates missing keys (the demanding child lookup alone marks only the parent); the unaccessed count equals the number of such nodes, and asking for the count, sizes, emptiness or equality changes nothing. The unaccessed-settings log contains one line per child subtree that still "
     "has unaccessed nodes, in tree order, with the key indented by depth, and with the value and a star exactly for the unaccessed nodes themselves.",
     HI, "all trees and read histories",
     "No existing test covers access tracking.",
     ["flut/prop_node.hpp", "flut/prop_node_tools.cpp"],
     [("access flag set by read paths", "flut/prop_node.hpp access/count_unaccessed"), ("report", "flut/prop_node_tools.cpp log_unaccessed")],
     ["is_accessed/count_unaccessed", "log lines received by a sink"],
     technique="shadow-state monitor over read histories + log-trace checker, ASan/UBSan", note=NOTE)

prop("C14", "Include directives and merges produce exactly the composed tree",
     "Loading a file with includes yields the tree in which every include node, at any depth and however nested, is replaced in place by "
     "the included file's root entry, or, when merging of children was asked for, by the first child per key of its root whose key is not already present, appended in order; paths are "
     "relative to the including file, and XML and native files can include each other. Include cycles (nesting of 100 levels or more), missing files and included files without a single root raise an error instead of "
     "hanging, and merging two trees adds exactly the missing keys and replaces existing ones only when overwriting was requested, also when the source is a part of the destination.",
     IN, "all acyclic include graphs over files and folders, cyclic ones, and all pairs of trees for merging",
     "No existing test covers includes or merging.",
     ["flut/prop_node_tools.cpp"],
     [("recursive include resolution with level limit", "flut/prop_node_tools.cpp resolve_include_files/load_file_with_include"),
      ("merge", "flut/prop_node_tools.cpp merge_prop_nodes")],
     ["resulting tree vs reference composition"],
     technique="differential monitor against a reference composer on generated file graphs + ASan/UBSan", note=NOTE)

prop("C15", "Each log message reaches exactly the sinks whose level admits it, once",
     "Under any history of creating, destroying, adding, removing and re-levelling sinks, each logged message is delivered exactly once, "
     "unmodified and in order, to every registered sink whose level is at or below the message's level, and to no other sink. Setting the "
     "global level sets every sink's level, a destroyed or removed sink receives nothing more, registering a sink twice does not "
     "duplicate messages, and a file sink's file contains every message delivered so far, each on its own line. The level test says for each level below critical whether any registered sink admits it.",
     HI, "all histories of sink and level operations and messages (all levels, argument lists and formats)",
     "The tests log a few lines to one sink and check nothing about them.",
     ["flut/system/log.cpp", "flut/system/log.hpp", "flut/system/log_sink.hpp"],
     [("global sink list and cached lowest level", "flut/system/log.cpp"), ("per-sink level test", "flut/system/log_sink.hpp")],
     ["messages received per sink vs shadow registry"],
     [("lowest_log_level", "cached minimum level", "flut/system/log.cpp")],
     technique="exactly-once/ordering trace monitor against a shadow registry + ASan/UBSan", note=NOTE)

prop("C16", "Flat maps and sorted vectors behave as a map and a sorted multiset",
     "Under any history of insertions, lookups, overwrites and erasures, a flat map holds each key at most once with its latest value, keeps insertion order, "
     "and a checked lookup of a missing key raises an error without inserting it. A sorted vector always iterates in ascending order, holds exactly the multiset inserted minus "
     "erased, equal elements stay in insertion order, and find returns an element equal to the one sought if and only if there is one.",
     HI, "all operation histories, including duplicate and extreme keys",
     "The container test checks two flat-map lookups; sorted_vector is untested.",
     ["flut/flat_map.hpp", "flut/sorted_vector.hpp"],
     [("linear/binary search over a vector", "flut/flat_map.hpp find/operator[]/at; flut/sorted_vector.hpp insert/find")],
     ["contents after each operation", "lookup results"],
     technique="online model-based monitor (std::map / stable multiset) + ASan/UBSan", note=NOTE)

prop("C17", "A circular deque keeps its elements and order through growth and wrap-around",
     "Under any history of pushing and popping at both ends, clearing, reserving, copying and element writes, starting from any initial capacity, a "
     "circular deque holds exactly the elements of an ordinary double-ended queue: same size, front, back, indexed access and forward "
     "iteration, on constant and non-constant objects alike. It grows when full without losing or reordering elements.",
     HI, "all operation histories, in particular growth and reservation while wrapped around",
     "No existing test covers it.",
     ["flut/circular_deque.hpp"],
     [("modular indexing and growth at the seam", "flut/circular_deque.hpp push_back/push_front/reserve")],
     ["all elements after each operation"],
     [("front_, size_", "window into the ring", "flut/circular_deque.hpp")],
     technique="online model-based monitor (std::deque) + ASan/UBSan", note=NOTE)

prop("C18", "Dynamic arrays and cloned pointers have full value semantics without leaks",
     "Under any history of construction, copy, move, assignment (including to itself), fill and element writes, a dynamic array has exactly "
     "the size and elements of the equivalent standard vector, copies are independent, and a moved-from array is empty and reusable; checked access outside the size raises an "
     "error. Cloning a smart pointer or a vector of them makes equal, independent objects, empty pointers stay empty, and no element is "
     "leaked or destroyed twice.",
     HI, "all operation histories over several live arrays and element types with observable lifetimes",
     "No existing test covers them.",
     ["flut/dynarray.hpp", "flut/memory_tools.hpp"],
     [("owning buffer with end pointer", "flut/dynarray.hpp"), ("deep copy", "flut/memory_tools.hpp clone")],
     ["elements and sizes after each operation", "live-object counter, LeakSanitizer"],
     technique="model-based monitor with object-lifetime accounting + ASan/LSan/UBSan", note=NOTE)

prop("C19", "Name lookup, hashing, factories, flag sets and memoization are exact",
     "A dictionary finds the first entry for any element or name and reports missing ones by error or default; the text hash of a text is the same at compile time and at run time, and is 64-bit FNV-1a for ASCII text; a factory creates exactly the type registered last under the given name (by default the class's own name without namespace), "
     "passes the arguments on, and refuses unknown names. A flag set behaves as a set of independent flags under any history of set, clear "
     "and query, and a memoized function returns what the function returns, calling it exactly once per distinct argument tuple.",
     HI, "all entries, texts, registration orders, flag histories (full storage width) and argument sequences",
     "The tests cover one memoized function and no other part.",
     ["flut/dictionary.hpp", "flut/hash.hpp", "flut/factory.hpp", "flut/flag_set.hpp", "flut/memoize.hpp"],
     [("linear lookup", "flut/dictionary.hpp, flut/factory.hpp"), ("FNV-1a", "flut/hash.hpp"), ("bit set", "flut/flag_set.hpp"),
      ("result cache", "flut/memoize.hpp")],
     ["lookup results", "call counts of the memoized function"],
     technique="model-based monitors incl. call counting + ASan/UBSan", note=NOTE)

prop("C20", "Labelled storages and tables keep every value under its label as they grow",
     "Under any history of adding, labelling and relabelling channels, adding frames or rows and columns, resizing and writing, a storage or table holds exactly "
     "the values last written at each position (new cells hold the given default), and looking up a non-empty label gives the position "
     "it was assigned to, unknown or replaced labels giving none. Reads by index, by label and of the latest frame, interpolated reads and the text output all agree with those contents; "
     "shrinking and duplicate labels are refused with an error.",
     HI, "all histories of structural changes and writes",
     "No existing test covers storages or tables.",
     ["flut/storage.hpp", "flut/table.hpp", "flut/buffer/data_header.hpp"],
     [("row-major reorganisation", "flut/storage.hpp resize; flut/table.hpp resize"), ("label index", "flut/buffer/data_header.hpp")],
     ["all cells and labels after each operation"],
     technique="online model-based monitor over histories + ASan/UBSan", note=NOTE)

prop("C21", "A circular frame buffer always returns the most recent frames",
     "Under any history of adding frames, adding or labelling channels and writing values, reading a frame among the most recent N (N the buffer length) by index, relative to "
     "the newest, or as the newest returns the value last written there, and interpolation blends two adjacent retained frames linearly. Checked access to a frame "
     "that is too old, not yet added, or a channel out of range raises an error, also before the buffer has filled up once, and adding a channel keeps the buffer length (but not the contents). Cells not written since their frame was added have no specified value.",
     HI, "all histories, before and after wrap-around",
     "No existing test covers it.",
     ["flut/buffer/circular_frame_buffer.hpp", "flut/buffer/data_header.hpp"],
     [("frame index modulo buffer length", "flut/buffer/circular_frame_buffer.hpp")],
     ["all retained frames after each operation"],
     technique="online model-based monitor over histories + ASan/UBSan", note=NOTE)

prop("C22", "Interpolation, polynomials, splines and ranges match their definition",
     "Interpolated look-up in a sample series returns the exact sample at a sample key, the linear blend between neighbours otherwise, and the "
     "first or last sample outside; a piecewise-linear approximation equals its function at its nodes, the linear interpolant between them and the outer segments' lines beyond them; a "
     "polynomial evaluates its coefficients; a spline passes through its inner control points at their times, with the Catmull-Rom curve between them and the outermost pieces continued before the first and after the last time. Integer ranges, with or without a positive or negative step, iterate "
     "over exactly begin, begin+step, ... before end (nothing, if the step leads away from end), and terminate.",
     IN, "all series, keys inside/outside/at samples, functions, coefficients and ranges (steps not dividing the range included)",
     "No existing test covers these.",
     ["flut/buffer/interpolation.hpp", "flut/buffer/buffer_access.hpp", "flut/math/regular_piecewise_linear_function.hpp",
      "flut/math/polynomial.hpp", "flut/math/catmull_rom.hpp", "flut/math/irange.hpp"],
     [("binary search and blend", "flut/buffer/interpolation.hpp"), ("index clamping", "flut/math/regular_piecewise_linear_function.hpp"),
      ("iterator comparison", "flut/math/irange.hpp")],
     ["returned values, iteration traces"],
     technique="differential monitor in extended precision + ASan/UBSan", note=NOTE)

prop("C23", "Vectors, quaternions and transforms obey the laws of 3-D geometry",
     "For all finite inputs, vector operations act on every component; unit quaternions rotate without changing lengths or angles, "
     "compose by multiplication, and are undone by their conjugate; axis/angle, rotation-vector, Euler-angle (all orders) and axes constructions produce the rotation they name, and axis/angle, rotation vectors and Euler angles about a single axis convert back to it; pitch, yaw and roll of any rotation are how far it turns the y, z and x axis within the yz, zx and xy plane. The rotation between any two directions, including equal and opposite ones, takes "
     "the first to the second; applying a transform and then its inverse restores every point, and bounding boxes contain exactly the extremes of the points added.",
     IN, "all finite vectors/rotations, float and double, including degenerate directions",
     "No existing test covers geometry.",
     ["flut/math/vec3.hpp", "flut/math/vec3_type.hpp", "flut/math/vec4.hpp", "flut/math/quat.hpp", "flut/math/mat33.hpp", "flut/math/transform.hpp",
      "flut/math/bounding_box.hpp"],
     [("closed-form quaternion algebra", "flut/math/quat.hpp")],
     ["results compared with matrix reference within tolerance"],
     technique="algebraic-law monitor against long-double matrix reference + UBSan/ASan", note=NOTE)

prop("C24", "Angles keep their meaning across units, types and arithmetic",
     "Converting an angle between degrees and radians and between value types preserves the angle (180 degrees is pi radians to the "
     "type's precision), a unit conversion followed by its inverse restores the value, mixed-unit and mixed-type construction, assignment and "
     "arithmetic give the mathematically expected angle, and comparison orders angles by magnitude. Trigonometric functions of an angle do not depend on "
     "the unit it is stored in.",
     IN, "all finite angle values, float and double, all unit combinations",
     "No existing test covers angles.",
     ["flut/math/angle.hpp", "flut/math/math.hpp"],
     [("unit-tagged value with converters", "flut/math/angle.hpp angle_converter; flut/math/math.hpp deg_to_rad/rad_to_deg")],
     ["converted values vs long-double reference"],
     technique="differential monitor in extended precision + UBSan", note=NOTE)

prop("C25", "Clamping, wrapping and bounds keep values in range, changing nothing inside",
     "For all finite arguments: clamping gives the nearest value in the range; soft clamping stays within the range, is monotonic, "
     "leaves values away from the boundary unchanged, and otherwise nears the bound as a hyperbola that leaves the boundary's edge with slope one; wrapping gives the equivalent value between lower and upper, up to rounding; a square wave has period 2 "
     "everywhere, negative times included. Bounds report containment, violation (signed distance outside, zero inside), range, clamping and negation consistently "
     "with those, and sign, parity, power-of-two, squares, cubes, signed roots and comparisons match their definitions.",
     IN, "all finite values and ranges, negative, boundary and huge ones included",
     "No existing test covers scalar maths.",
     ["flut/math/math.hpp", "flut/math/bounds.hpp"],
     [("branching clamp/wrap", "flut/math/math.hpp")],
     ["returned and updated values"],
     technique="differential/metamorphic monitor with tolerances + UBSan", note=NOTE)

prop("C26", "Filters, delays, differences and running averages follow their recurrences",
     "The output of a filter is the linear recurrence of its coefficients over all past inputs and outputs, a second-order low-pass filter passes a "
     "constant unchanged once settled, stays stable, passes half the power at its cut-off frequency and attenuates the top frequency; a delayed signal shows its initial value first and then the input, later by the given delay, leaving the range of what was put in by no more than one interpolation step. Differences add up to the total change, and a weighted running average is the weighted mean of what was added since reset.",
     HI, "all input sequences, cut-off ratios, delays and step sizes",
     "No existing test covers these.",
     ["flut/filter.hpp", "flut/math/delayer.hpp", "flut/math/delta.hpp", "flut/math/average.hpp"],
     [("shift register", "flut/filter.hpp iir_filter"), ("ring of samples", "flut/math/delayer.hpp")],
     ["outputs after each sample vs reference recurrence"],
     technique="online reference-recurrence monitor + UBSan/ASan", note=NOTE)

prop("C27", "Random numbers are reproducible from the seed and respect their distribution",
     "Two generators given the same seed and the same calls produce the same sequence, re-seeding restarts it, and different generator objects do not "
     "influence each other. Uniform numbers always lie in the requested range, and the sample mean and spread of "
     "uniform and normal numbers agree with the requested parameters.",
     HI, "all seeds, ranges, parameters and interleavings of calls on several generators",
     "No existing test covers random numbers.",
     ["flut/math/random.hpp", "flut/math/random.cpp"],
     [("engine owned per generator", "flut/math/random.hpp")],
     ["sequences, ranges, moments"],
     technique="replay-equality and range/moment monitor + UBSan", note=NOTE)

prop("C28", "Elapsed time and profiling sums equal the time that actually passed",
     "Driven by a controlled clock, a timer reports exactly the time since its creation or last reset, consistently in all units, and never "
     "runs backwards when the wall clock is adjusted. A stopwatch's measures per name plus its own overhead add up to the elapsed time, and the profiler's "
     "sections form the tree in which they were opened, identical names under one parent being summed, with each section's percentage equal to the time spent inside it and its overhead including that of the sections inside it; use from another thread is refused. Date texts show the wall clock's local time, and sleeping lasts at least as long as asked.",
     ["histories", "schedules"], "all sequences of clock advances, wall-clock jumps, resets, measures and nested sections",
     "The timer tests only check that a busy loop takes roughly the right real time.",
     ["flut/timer.hpp", "flut/stopwatch.cpp", "flut/stopwatch.hpp", "flut/system/profiler.cpp", "flut/system/profiler.hpp"],
     [("monotonic clock difference", "flut/timer.hpp"), ("epoch accounting", "flut/stopwatch.cpp add_measure; flut/system/profiler.cpp")],
     ["values under an interposed clock_gettime"],
     technique="virtual-clock monitor with conservation oracle + ASan/UBSan", note=NOTE)

prop("C29", "An interrupt request is seen by the running task, and only once requested",
     "An interruptible object reports no interrupt until one is requested, reports it on every later test from any thread, and never loses it; "
     "requesting from one or many threads while others poll is free of data races. Interrupting one object never affects another; a copy has the state its original had when it was copied.",
     ["schedules", "histories"], "all interleavings of requesting and polling threads",
     "No existing test covers it, and no test runs threads.",
     ["flut/interruptible.cpp", "flut/interruptible.hpp"],
     [("interrupt flag", "flut/interruptible.hpp")],
     ["flag observations per thread"],
     technique="ThreadSanitizer runs + bounded-progress and no-lost-request history monitor", note=NOTE + TSN)

prop("C30", "File operations do what they report, never clobber wrongly, and fail cleanly",
     "Copying a file produces a byte-identical copy and returns true, or returns false, leaving the destination as it was unless writing itself failed (missing source, existing destination without overwrite, unreadable source, unwritable destination, copy onto itself or a hard link to itself); loading returns the exact file contents or an error. Creating nested folders creates "
     "all of them, existence tests tell files, folders and missing names apart, removal removes a file or empty folder and nothing else, and creating a unique folder always creates and returns a "
     "folder that did not exist before (with the name asked for if that is free), also when many threads or processes ask for the same name at once; what permissions forbid is reported as a failure and changes nothing. The documents and configuration folders are the user's home and its .config.",
     ["inputs", "schedules", "fault_sequences"], "all contents, path shapes, pre-existing states, write faults and concurrent callers",
     "The file-system code is not built or tested at all.",
     ["flut/filesystem.cpp", "flut/filesystem.hpp", "flut/system_tools.cpp"],
     [("create then test result", "flut/filesystem.cpp create_unique_folder/create_directories"), ("copy via streams", "flut/filesystem.cpp copy_file")],
     ["file-system state in a scratch folder before and after each call"],
     technique="file-system state monitor in a scratch directory with injected faults + ASan/UBSan/TSan", note=NOTE + TSN)

prop("C31", "Debug recordings contain every value written, in order, when the program ends",
     "Values written to the debug recorder under any sequence of labels appear, at program exit, in the chosen file as a table with one column per label, each column "
     "holding that label's values in the order written, one row per round of writes, with cells not written marked as missing (values to six significant digits, the reserved missing value itself excluded). Nothing is "
     "lost, duplicated or attributed to another label, and no file is produced when nothing was written.",
     HI, "all label/value sequences, new labels appearing at any time, and all numbers of rounds",
     "No existing test covers it.",
     ["flut/system/debug_storage.cpp", "flut/storage.hpp"],
     [("sentinel-marked rows", "flut/system/debug_storage.cpp auto_storage_writer")],
     ["the file left by a finished child process"],
     technique="offline checker over the file left by monitored child processes + ASan/UBSan", note=NOTE)

prop("C32", "The test framework counts and reports every result truthfully",
     "After any sequence of test results, the framework's total, passed and failed counts are exactly those results, each failure is logged at "
     "error level with its name and number, passes are logged only on request, and the final report states the counts and signals failure exactly when at least one test failed. After a reset "
     "counting starts again from zero.",
     HI, "all sequences of results, resets and reports",
     "The framework is what runs the tests; nothing tests it.",
     ["flut/system/test_framework.cpp", "flut/system/test_framework.hpp"],
     [("counters", "flut/system/test_framework.cpp")],
     ["counters, log lines, return values"],
     technique="counting trace monitor over log output + ASan/UBSan", note=NOTE)

prop("C33", "Sequence statistics and regressions equal their mathematical definition",
     "For every non-empty series: average, median, average of the n smallest, minimum and maximum, sort order, index look-ups, filtered views, channel means and "
     "covariances equal their definition whatever the order, size or duplicates of the data, and do not modify the input. A linear regression recovers the "
     "least-squares line, both from x/y pairs and from regularly spaced samples, and inverts where asked.",
     IN, "all series (sizes 1 to thousands, ties, sorted, reversed, random)",
     "The tests check median and two others on one vector.",
     ["flut/container_tools.hpp", "flut/buffer/data_algorithms.hpp", "flut/math/linear_regression.hpp", "flut/math/polynomial.hpp"],
     [("generic algorithms", "flut/container_tools.hpp"), ("closed-form regression", "flut/math/linear_regression.hpp")],
     ["returned values vs long-double reference"],
     technique="differential monitor in extended precision + ASan/UBSan", note=NOTE)

prop("C34", "Optional values and version numbers keep exactly what was put in",
     "An optional holds nothing until assigned, and then exactly the last value assigned, across copies, and reading one from a text stream assigns it exactly when the read succeeds. A version "
     "printed and parsed again has the same components, with absent trailing components zero and absent postfix empty (the space before a postfix that is no number may be left out), and printing shows build and postfix exactly when present.",
     HI, "all values (except an integer type's reserved sentinel and NaN) and all non-negative version components with postfixes of one or more words on one line",
     "No existing test covers them.",
     ["flut/math/optional.hpp", "flut/system/version.hpp"],
     [("sentinel or flag", "flut/math/optional.hpp"), ("text conversion", "flut/system/version.hpp")],
     ["stored values, printed and re-parsed versions"],
     technique="round-trip monitor + ASan/UBSan with uninitialised-read detection", note=NOTE)

prop("C35", "Independent objects used in parallel threads do not interfere",
     "Threads that each use their own streams, strings, property trees, paths, containers, generators, stopwatches and files, threads that ask for date texts or share unchanging factories and pattern lists, and threads that log through shared sinks that synchronise themselves, "
     "obtain exactly the results they would obtain running alone, and no data race occurs inside the library.",
     ["schedules", "inputs"], "all interleavings of threads working on disjoint objects and logging concurrently",
     "All tests are single-threaded.",
     ["flut/string_tools.cpp", "flut/char_stream.cpp", "flut/prop_node.cpp", "flut/prop_node_tools.cpp", "flut/system/log.cpp", "flut/system/path.cpp"],
     [("absence of hidden shared state", "all of flut/")],
     ["per-thread results vs single-threaded results", "ThreadSanitizer reports"],
     technique="ThreadSanitizer stress with result-equality oracle", note=NOTE + TSN)

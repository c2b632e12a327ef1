N0 = ('Every obligation generated from the current source is discharged by z3 for all inputs (no bound on lengths or iterations). '
      'Assumes: the std:: models listed in the evidence, container sizes below 2^31 - 1, no allocation failure, clang AST. ')
PROPS = [
 dict(id='C01', title='Quoting followed by unquoting returns the original string',
  statement='For every byte string, quoting it and then unquoting the result yields exactly the same bytes. Conditional quoting leaves a string untouched exactly when it contains no blank, quote, backslash or control character, and conditional unquoting undoes it in every case. A quoted string contains no raw control character and no unescaped quote between its enclosing quotes.',
  all='every byte string of every length (all 256 byte values in every position)',
  why='The tests quote and unquote one or two literals; the claim ranges over all strings of all lengths and all 256 byte values.',
  files=['flut/string_tools.cpp', 'flut/string_tools.hpp'],
  mech=[('encode_char / decode_char', 'flut/string_tools.cpp'), ('quoted / try_quoted / needs_quotes / try_unquoted', 'flut/string_tools.cpp')],
  note=N0 + 'Round trip is a lemma (induction over the string) over the contracts of the six functions. stringf("\\\\%03o") is a trusted printf model. Strings up to INT_MAX characters.'),
 dict(id='C02', title='Decoding quoted or escaped text never leaves its buffer and always ends',
  statement='Unquoting any string, well-formed or not, terminates, reads only characters of that string and never fails; strings that are not enclosed in quotes come back unchanged. Decoding one escaped character consumes at least one and at most the available number of characters, and yields a defined value for every malformed or truncated escape; decoding from an empty buffer is rejected with an error.',
  all='every byte string, including truncated escapes, lone quotes and embedded NUL characters',
  why='The tests only decode well-formed text; out-of-bounds reads happen on truncated or malformed text.',
  files=['flut/string_tools.cpp'], mech=[('decode_char', 'flut/string_tools.cpp'), ('try_unquoted', 'flut/string_tools.cpp')],
  note=N0 + 'Bounds of every character access and termination of the decoding loop are obligations.'),
 dict(id='C03', title='Reading from a text stream stays in its buffer and consumes or fails',
  statement='Whatever the text, every read from a character stream (number, word, character, line or token) reads only characters of its buffer, leaves the position inside it, and reports the end of the text exactly when the position is at its end. A read that succeeds advances past exactly the text it returns and the delimiters behind it; a number or word read that consumes nothing marks the stream as failed and leaves the position where it was. Looking at the next character never moves the position.',
  all='every text (with or without terminators, empty, embedded NUL), every delimiter set, every radix and every sequence of reads',
  why='The existing tests do not exercise the stream class at all; overruns and endless loops appear only for particular texts near the end of the buffer.',
  files=['flut/char_stream.cpp', 'flut/char_stream.hpp'], mech=[('char_stream operator>>', 'flut/char_stream.hpp'), ('char_stream::get_token / get_line / getc / peekc', 'flut/char_stream.cpp')],
  over=['inputs', 'histories'],
  note=N0 + 'A class invariant (position inside the buffer, end flag exactly at the end) is preserved by every member function. strtol/strtod and relatives are uninterpreted (value and extent are functions of the remaining text and radix).'),
 dict(id='C04', title='Tokenising returns operators, quoted strings and plain words exactly',
  statement='Reading a token from a text returns an operator character as a token of its own, a plain run of characters unchanged up to the next delimiter, operator or quote, and a quoted string decoded. In particular a quoted string reads back as exactly the string that was quoted, whatever bytes it contains and whatever operator or delimiter characters occur in it. Every token read makes progress, so tokenising any text terminates.',
  all='every text, every set of operator characters and every delimiter set; every byte string as quoted content',
  why='No existing test reads tokens; quoted content with embedded quotes, escapes, operators or line ends decides whether text survives.',
  files=['flut/char_stream.cpp', 'flut/string_tools.cpp'], mech=[('char_stream::get_token', 'flut/char_stream.cpp'), ('decode_char', 'flut/string_tools.cpp')],
  note=N0 + 'get_token has a functional contract (recursive definition of the token text and its extent); lemmas token_quoted, token_plain, token_operator and tok_progress derive the statement from it.'),
 dict(id='C05', title='Splitting a string yields exactly its maximal separator-free runs',
  statement='Splitting a string at a set of separator characters returns, in order, exactly the maximal non-empty runs of characters that are not separators. No token is empty, no token contains a separator, every non-separator character appears in exactly one token, and splitting always terminates.',
  all='every string and every set of separator characters, including empty ones',
  why='The tests split a few literals; leading, trailing and repeated separators in arbitrary combinations are not covered.',
  files=['flut/string_tools.cpp'], mech=[('split_str', 'flut/string_tools.cpp')],
  note=N0 + 'The contract fixes every token by a recursive definition of the k-th maximal run; lemmas token_chars and gap_chars show that the runs are exactly the separator-free ones.'),
 dict(id='C06', title='Substring, search and trimming helpers compute exactly what they say',
  statement='Taking the leftmost, rightmost or middle part of a string returns exactly the characters asked for, clamped to the string (negative counts drop characters from the other end), and a middle part throws only when it starts past the end. Prefix, suffix and substring tests answer exactly whether the text matches there; trimming removes all and only the leading and/or trailing characters of the given set. Text left of the first or right of the last separator, and a key/value pair cut at the first separator and trimmed, are exactly those pieces (the whole string when there is no separator).',
  all='every string, every count (negative, zero, larger than the string), every position and every separator set',
  why='The tests use a handful of short literals and never counts beyond the string or suffixes that occur twice.',
  files=['flut/string_tools.cpp', 'flut/string_tools.hpp'], mech=[('left_str, mid_str, right_str, in_str, str_begins_with, str_ends_with', 'flut/string_tools.cpp'), ('trim_str, trim_right_str, left_of_str, right_of_str, make_key_value_str', 'flut/string_tools.cpp')],
  note=N0 + 'Each function has a functional contract over the std::string search axioms (first/last position of a set or substring).'),
 dict(id='C07', title='Path decomposition, joining and editing are consistent',
  statement='Every path splits at its last separator into a parent and a filename, and every filename into a stem and an extension at its last dot, such that the parts put together again give the path; a dot in a folder name never starts an extension. Joining a path with a name inserts a separator only where one is missing and the filename of the join is the name. Replacing or removing the extension or the filename changes nothing else, and normalising separators changes only separators.',
  all='every path string: with and without separators of both kinds, dots anywhere, empty parts',
  why='The tests look at a few ordinary paths; the laws must hold for every string used as a path.',
  files=['flut/system/path.cpp', 'flut/system/path.hpp'], mech=[('path', 'flut/system/path.cpp'), ('path operators', 'flut/system/path.hpp')],
  note=N0 + 'The decomposition and joining laws are lemmas over the contracts of the member functions.'),
 dict(id='C08', title='File name helpers partition a file name into folder, name and extension',
  statement='For every file name, its folder part followed by the remainder is the file name again, and the remainder contains no separator. The extension is the text after the last dot when that dot lies in the last path component and empty otherwise; removing a non-empty extension and putting back a dot and the extension restores the file name.',
  all='every string used as a file name',
  why='The tests use two or three ordinary names; names without folder, with dots in folders or trailing dots are not covered.',
  files=['flut/string_tools.cpp'], mech=[('get_filename_ext / get_filename_without_ext / get_filename_folder / get_filename_without_folder', 'flut/string_tools.cpp')],
  note=N0),
 dict(id='C09', title='A flat map holds exactly one value per key, in insertion order',
  statement='After any sequence of insertions, assignments, lookups and erasures, each key has at most one entry and a lookup returns exactly the value last stored under it; entries of other keys are untouched. Indexing a missing key adds exactly one entry with a default value at the end; checked or read-only access to a missing key throws and changes nothing. Membership, count and search agree with each other and with the entries.',
  all='every key and value type with equality, every content and every sequence of operations', over=['inputs', 'histories'],
  why='The map is only exercised incidentally; the guarantee is about every history of operations and every key collision pattern.',
  files=['flut/flat_map.hpp'], mech=[('flat_map', 'flut/flat_map.hpp')],
  note=N0 + 'Verified for opaque key and value types (only equality is known). Distinctness of keys is the class invariant; the effect on other keys is proved as lemmas over the contracts.'),
 dict(id='C10', title='A sorted vector stays sorted and finds what it contains',
  statement='After any sequence of insertions a sorted vector contains exactly the inserted elements, in ascending order, and an insertion returns the position of the new element. A search returns the position of an element equal to the one searched for if there is one, and the end otherwise.',
  all='every totally ordered element type, every content and every sequence of insertions and searches', over=['inputs', 'histories'],
  why='No test uses the class; ordering and search must hold for every insertion order and for duplicates.',
  files=['flut/sorted_vector.hpp'], mech=[('sorted_vector::insert / find', 'flut/sorted_vector.hpp')],
  note=N0 + 'Verified for an opaque element type with a total order whose equality agrees with ==.'),
 dict(id='C11', title='A dictionary maps names and elements to each other consistently',
  statement='Looking up an element gives the name of the first entry with that element, looking up a name gives the element of the first entry with that name, and a lookup of something that is not there throws or gives the supplied default. When names and elements are unique, looking up the name of an element gives back that element.',
  all='every dictionary content (including duplicates and empty) and every element and name',
  why='Lookups in the tests use one small dictionary and never ask for missing names.',
  files=['flut/dictionary.hpp'], mech=[('dictionary', 'flut/dictionary.hpp'), ('lookup', 'flut/dictionary.hpp')],
  note=N0),
 dict(id='C12', title='A circular deque behaves as a double-ended queue for every history',
  statement='After any sequence of pushes and pops at both ends, clearing and reserving, the size, the first and last element and the element at every index are those of an ordinary double-ended queue that went through the same operations, whatever the initial capacity and wherever the contents wrap around in the buffer. Growing or reserving never changes the contents, and popping or looking at an end of an empty deque throws. No operation accesses memory outside the buffer.',
  all='every initial capacity, element type and sequence of operations, every wrap-around position', over=['inputs', 'histories'],
  why='No test uses the class; the failures need a particular combination of wrap-around position and growth.',
  files=['flut/circular_deque.hpp'], mech=[('circular_deque', 'flut/circular_deque.hpp')],
  note=N0 + 'A class invariant and an abstraction (element i of the queue is buffer[(front+i) mod capacity]) are preserved by every member; iterators are covered by the concrete cross-check.'),
 dict(id='C13', title='Container helpers sort, rank, average and search exactly',
  statement='The sorted copy of a sequence is an ordered permutation of it; sorting indices yields a permutation of all positions in ascending order of the elements. The median is the middle element, or the mean of the two middle elements, of the sorted sequence; the average is the sum divided by the count, and the top average is the average of the smallest values asked for. Searching returns the first matching position or a not-found mark, and the minimum and maximum are elements no other element undercuts or exceeds.',
  all='every sequence of every length (including duplicates, and empty where that is allowed)',
  why='The tests call one of these helpers on one list; ordering, even/odd length and ties need all inputs.',
  files=['flut/container_tools.hpp'], mech=[('sorted_copy, sort_indices, median, average, top_average, find_index, min_element, max_element', 'flut/container_tools.hpp')],
  note=N0 + 'Floating-point sums are treated as real sums; std::sort is trusted to produce the ordered permutation.'),
 dict(id='C15', title='A data header finds every label at its own position',
  statement='After any sequence of adding, renaming, growing and clearing, and from any initial list of labels, the position found for a label is a position that carries exactly that label, and a label that no position was given is reported as not found. Adding or renaming to a label makes it findable at the position returned, leaves the positions of all other labels alone and forgets only the label that was replaced. A label that is already in use and a position that does not exist are rejected, and growing keeps all labels.',
  all='every label type with equality, every content and every sequence of operations', over=['inputs', 'histories'],
  why='No test uses the class directly; stale index entries show only after particular histories of renaming and growing.',
  files=['flut/buffer/data_header.hpp'], mech=[('data_header', 'flut/buffer/data_header.hpp')],
  note=N0 + 'The agreement of labels and index is a class invariant preserved by every member; verified for an opaque label type.'),
 dict(id='C16', title='A storage keeps every frame/channel cell through all growth',
  statement='After any sequence of adding channels and frames and resizing, every cell that existed keeps its value at its frame and channel, new cells hold the given value or data, and no access by frame and channel, by label or to the latest frame reads or writes any other cell. Interpolation between frames is the exact linear combination of the two neighbouring frames of that channel; checked access out of range, shrinking and duplicate labels are rejected. Channel means are the sums over the frames divided by their number, and a covariance matrix holds for every pair of channels the mean product of the deviations, so that it is symmetric with a non-negative diagonal.',
  all='every number of frames and channels, every label and every sequence of operations', over=['inputs', 'histories'],
  why='The tests fill one small storage; the layout changes on growth and every cell must survive every order of growing.',
  files=['flut/storage.hpp', 'flut/buffer/data_algorithms.hpp'], mech=[('storage', 'flut/storage.hpp'), ('compute_channel_means / compute_covariance', 'flut/buffer/data_algorithms.hpp')],
  note=N0 + 'Cells are indexed by ghost frame/channel constants; the re-layout loops have invariants over them. Floating-point arithmetic is treated as real arithmetic.'),
 dict(id='C17', title='A table keeps every cell and label through all growth',
  statement='After any sequence of adding rows and columns (explicitly, or by access with new labels) and resizing, every cell that existed keeps its value at its row and column, and every new cell holds the given default value. Row and column labels keep denoting the same row and column; access by labels reaches exactly the cell of these labels. Access out of range, shrinking, and read-only access with an unknown label are rejected.',
  all='every number of rows and columns, every cell and label type and every sequence of operations', over=['inputs', 'histories'],
  why='The test grows one table in one order; the in-place re-layout of the cells must be right for every shape and order of growth.',
  files=['flut/table.hpp'], mech=[('table', 'flut/table.hpp')],
  note=N0 + 'Cells are indexed by ghost row/column constants; the in-place re-layout loop has invariants over them. Reference arguments are assumed not to refer to elements of the same table.'),
 dict(id='C18', title='A circular frame buffer gives back exactly the last frames',
  statement='A buffer for n frames gives access to exactly the last n frames that were added (fewer before it is full): a value written to a frame and channel stays readable under that frame number, and counted backwards from the latest frame, until n newer frames were added, and different frames and channels never share a cell. Checked access to a frame that is too old or not yet added, or to an unknown channel, is rejected. Interpolation is the exact linear combination of two successive frames.',
  all='every buffer length, number of channels, frame number and sequence of operations', over=['inputs', 'histories'],
  why='No test uses the class; failures need a particular fill level and wrap-around position.',
  files=['flut/buffer/circular_frame_buffer.hpp'], mech=[('circular_frame_buffer', 'flut/buffer/circular_frame_buffer.hpp')],
  note=N0 + 'Every accessor is proved to return the cell (frame mod n, channel); lemmas show that live frames never collide. Changing the buffer shape discards its contents (as in the code). Floating-point arithmetic is treated as real arithmetic.'),

 dict(id='C19', title='Vector operators compute the componentwise vector-space operations',
  statement='Sums, differences, negations, scalings, quotients and products of vectors are taken in every component (four-dimensional vectors included), in-place operators change only their left operand and return it, and comparison looks at all components. Dot product, cross product, length and distance are the Euclidean ones, so the cross product is orthogonal to both factors and the Cauchy-Schwarz bound holds; normalising keeps the direction, yields unit length and leaves the null vector alone. Extending a bounding box by a point or a box yields exactly the smallest box that contains both.',
  all='every vector, scalar and box (over the reals)',
  why='The tests use a few vectors and never the fourth component; a wrong component or sign shows only for particular values.',
  files=['flut/math/vec3.hpp', 'flut/math/vec4.hpp', 'flut/math/bounding_box.hpp'], mech=[('vec3_ operators', 'flut/math/vec3.hpp'), ('vec4_ operators', 'flut/math/vec4.hpp'), ('bounding_box_::operator+=', 'flut/math/bounding_box.hpp')],
  note=N0 + 'Floating-point arithmetic is treated as exact real arithmetic (rounding is not modelled); instantiated for double.'),
 dict(id='C20', title='Rotations and rigid transforms preserve geometry, compose and invert',
  statement='Rotating vectors by a unit quaternion preserves lengths, angles and handedness; the product of two quaternions rotates by the second and then the first, and the negation of a unit quaternion undoes the rotation. A quaternion built from an axis and angle is the rotation about that axis by that angle, one built from three Euler angles is the product of the axis rotations in the requested order, and one built from two directions turns the first into the second. Transforms map points by rotating and then translating; applying a product equals applying the factors one after the other, the inverse undoes the transform, and distances between points are preserved.',
  all='every unit quaternion, axis, angle, Euler order, direction, transform and point (over the reals)',
  why='The tests compare a few Euler rotations; algebraic laws over four to ten real variables cannot be settled by samples.',
  files=['flut/math/quat.hpp', 'flut/math/transform.hpp'], mech=[('quat_ operators and factories', 'flut/math/quat.hpp'), ('transform_', 'flut/math/transform.hpp')],
  note=N0 + 'Polynomial identities are discharged by ideal membership with exactly rechecked cofactors. Floating-point arithmetic is treated as exact real arithmetic; sin/cos/acos are uninterpreted in the function contracts and constrained by the circle identity in the lemmas; quat_from_directions is covered by the bounded concrete check only.'),
 dict(id='C21', title='Clamping, wrapping, bounds, averages and angle units are exact',
  statement='Clamping returns the value of the range that is nearest to the argument; soft clamping stays in the range, is monotone and leaves the inner part unchanged; wrapping stays in the range, moves by a whole multiple of it and leaves values inside unchanged. Bounds report membership, size and signed violation consistently with clamping, a weighted average is the weighted sum divided by the total weight, and a difference is taken to the value seen before. Angle conversions between degrees and radians are inverse to each other and arithmetic and comparison act on the value; sign, powers, parity, power-of-two and square-wave helpers have their mathematical meaning.',
  all='every value, range with lower limit not above upper, boundary fraction up to one half, and weight (over the reals; all machine integers for parity and powers of two)',
  why='The tests do not call most of these helpers; off-by-one and sign errors show only at limits, negative arguments or multiples of the range.',
  files=['flut/math/math.hpp', 'flut/math/angle.hpp', 'flut/math/bounds.hpp', 'flut/math/average.hpp', 'flut/math/delta.hpp'], mech=[('clamp, soft_clamp, wrap, ...', 'flut/math/math.hpp'), ('angle_', 'flut/math/angle.hpp'), ('bounds', 'flut/math/bounds.hpp'), ('average_', 'flut/math/average.hpp'), ('delta', 'flut/math/delta.hpp')],
  note=N0 + 'Floating-point arithmetic is treated as exact real arithmetic; integer helpers are verified on machine words (bit vectors).'),
 dict(id='C14', title='A dynamic array keeps its size and elements through copies and moves',
  statement='A dynamic array has exactly the number of elements it was made with; indexing, checked access, iteration and raw data all address the same elements, and checked access throws exactly for an index that is not below the size. A copy has equal elements and is independent of the original; after a move the target has the elements of the source and the source is empty. Filling sets every element and no operation accesses memory outside the array.',
  all='every size, element type and sequence of construction, copying, moving, assignment and element access', over=['inputs', 'histories'],
  why='No test uses the class; the failures need a particular sequence of moves and assignments.',
  files=['flut/dynarray.hpp'], mech=[('dynarray', 'flut/dynarray.hpp')],
  note=N0 + 'The class invariant ties the end pointer to the owned array (array identity and offset); every member preserves it.'),
 dict(id='C22', title='Polynomials, filters and interpolation follow their defining formulas',
  statement='A polynomial evaluates to the sum of its coefficients times the powers of the argument; a recursive filter outputs the weighted sum of the current input and the previous inputs and outputs, and the low-pass design has unit gain at frequency zero. Interpolating samples gives a sample exactly at its key, a value on the line between the two neighbouring samples in between, and the first or last sample outside. A regular piecewise linear function agrees with the tabulated function at every grid point and is linear in between.',
  all='every coefficient, input sequence, sorted sample table of any length and key (over the reals)',
  why='The tests do not call these; index and weight errors show only at particular positions and after several samples.', over=['inputs', 'histories'],
  files=['flut/math/polynomial.hpp', 'flut/filter.hpp', 'flut/buffer/interpolation.hpp', 'flut/buffer/buffer_access.hpp', 'flut/math/regular_piecewise_linear_function.hpp'],
  mech=[('polynomial, intersect_y', 'flut/math/polynomial.hpp'), ('iir_filter, make_lowpass_butterworth_2nd_order', 'flut/filter.hpp'), ('interpolated_value', 'flut/buffer/interpolation.hpp'), ('regular_piecewise_linear_function', 'flut/math/regular_piecewise_linear_function.hpp')],
  note=N0 + 'Floating-point arithmetic is treated as exact real arithmetic; polynomials are instantiated for degrees 1 to 3 and filters for orders 2 and 4, their loops over the fixed-size arrays completely unrolled.'),
 dict(id='C23', title='The hash is 64-bit FNV-1a, the same at compile time and at run time',
  statement='The hash of a string is the 64-bit FNV-1a value of its bytes up to the first NUL, with bytes taken as unsigned. The compile-time function, the literal suffix, the C-string and the string-object versions yield the same value for the same text, and a hash can be continued from the value of a prefix.',
  all='every byte string',
  why='No test calls the functions; a difference between the variants or for bytes above 127 shows only for particular texts.',
  files=['flut/hash.hpp'], mech=[('hash, hash_constexpr', 'flut/hash.hpp')],
  note=N0 + 'Both functions are proved equal to one recursive definition of FNV-1a; exclusive-or is uninterpreted (the same symbol in code and specification).'),
 dict(id='C24', title='A flag set answers for each flag independently',
  statement='Setting, clearing or assigning a flag changes the answer for that flag only, and asking for a flag returns what was last set for it; a new or cleared set has no flag, and a set has any flag exactly if one of them is set. Copies are independent of each other, and setting or clearing a list of flags is doing so for each of them.',
  all='every flag number that fits the storage word, every state and every sequence of operations', over=['inputs', 'histories'],
  why='The tests do not use the class; interference between flags shows only for particular pairs of flags and states.',
  files=['flut/flag_set.hpp'], mech=[('flag_set', 'flut/flag_set.hpp')],
  note=N0 + 'Verified on machine words (bit vectors) for 32- and 8-bit storage.'),

 dict(id='C25', title='A property tree looks up, stores and appends by key exactly',
  statement='Looking up a key in a property node finds its first child with that key, and every form of lookup (checked, optional, with a default, by alternatives) agrees on it; looking up an absent key fails, yields nothing or yields the default, and never changes the tree. Setting a key replaces the first child with that key or appends one at the end, appending always adds a child at the end, and neither affects the node value or any other child. What was stored under a key is what is read back under it.',
  all='every tree, key, value and sequence of operations, including repeated and empty keys', over=['inputs', 'histories'],
  why='No test uses the class; errors show only for repeated keys, absent keys or particular positions.',
  files=['flut/prop_node.hpp'], mech=[('prop_node lookup, set, push_back', 'flut/prop_node.hpp'), ('prop_node_cast', 'flut/prop_node.hpp')],
  note=N0 + 'Instantiated for text values and for nodes; number-to-text conversion is not covered. insert and select are covered by the concrete runs only.'),
 dict(id='C26', title='Property trees are values: deep equality and independent copies',
  statement='Two property trees compare equal exactly if their values, and the keys and subtrees of their children in order, are equal at every depth. Copying, assigning or moving a tree yields a tree equal to the source, also when the source is a descendant of the target, and later changes of a copy never show in the original.',
  all='every pair of trees of any depth and width',
  why='No test uses the class; a difference deep in the tree, in the order or in the number of children must be seen for all trees.',
  files=['flut/prop_node.hpp', 'flut/prop_node.cpp'], mech=[('prop_node::operator==', 'flut/prop_node.cpp'), ('constructors and assignment', 'flut/prop_node.hpp')],
  note=N0 + 'Equality is proved by recursion on its own contract with a rank function as termination measure. Assignment from a descendant is covered by the concrete runs under the address sanitizer (the contracts assume that arguments do not alias).'),
 dict(id='C27', title='Delimited paths address nested property nodes',
  statement='Writing a value along a delimited path creates the missing nodes, reuses the first child for every key that exists, and leaves all other nodes unchanged; reading along the same path then gives that value. Reading a path finds the node that is reached key by key, and fails or yields nothing exactly if one of the keys is absent.',
  all='every tree, path (with empty keys and leading, trailing or repeated delimiters) and delimiter character',
  why='No test uses paths; the recursion over the path must hold for every depth and every split.',
  files=['flut/prop_node.hpp'], mech=[('set_delimited / get_delimited / try_get_child_delimited', 'flut/prop_node.hpp')],
  note=N0 + 'The recursive functions are proved equal to recursive definitions over the path, with its length as termination measure; the read-back and non-interference statements are lemmas over these.'),
 dict(id='C28', title='Merging property trees takes the union of keys',
  statement='Merging a second tree into a first appends every child whose key the first does not have yet, in order, and keeps all children of the first in their positions. A child whose key exists in both keeps the node of the first, or takes the node of the second when overwriting is requested.',
  all='every pair of trees, with and without overwriting, including repeated keys',
  why='No test merges trees; the outcome depends on the order and repetition of keys in both trees.',
  files=['flut/prop_node_tools.cpp'], mech=[('merge_prop_nodes', 'flut/prop_node_tools.cpp')],
  note=N0 + 'The merge loop is proved equal to a recursive definition; lemmas (induction over the second tree) state what is kept, added and overwritten.'),
 dict(id='C29', title='A log message reaches exactly the registered sinks whose level admits it',
  statement='A message logged at some level is delivered once, complete and with that level, to every sink that is registered and whose own level is not above it, and to no other sink. A sink is registered from its construction to its destruction unless it is removed in between, at most once, and changing the level of one sink or of all sinks takes effect for the next message.',
  all='every history of constructing, destroying, adding and removing sinks, level changes and messages', over=['inputs', 'histories'],
  why='No test logs to more than one sink; a stale filter level, a double registration or a lost message shows only for particular histories.',
  files=['flut/system/log.cpp', 'flut/system/log.hpp', 'flut/system/log_sink.hpp'], mech=[('add_sink / remove_sink / log_string', 'flut/system/log.cpp'), ('sink', 'flut/system/log_sink.hpp')],
  note=N0 + 'Sinks live in an object heap; the filter level is an invariant of the registry (never above the level of a registered sink). The receipt of a message is a ghost trace of one arbitrary sink. Streamed messages of one and two strings are under contract; printf-style messages and other argument types are covered by the concrete runs only.'),
 dict(id='C30', title='A memoised function returns what the function returns, once per argument',
  statement='Calling a memoised function with any arguments gives the value of the underlying function for these arguments, whatever calls were made before. The underlying function is called exactly once for each distinct combination of arguments and is given these arguments.',
  all='every pure function, argument combination and history of calls', over=['inputs', 'histories'],
  why='No test uses the class; confusing two argument combinations or calling again shows only for particular histories.',
  files=['flut/memoize.hpp'], mech=[('memoize', 'flut/memoize.hpp')],
  note=N0 + 'The function is modelled as an unknown pure function; a ghost counter counts its calls. Instantiated for one and two arguments.'),
 dict(id='C31', title='Text output writes every element once and in order',
  statement='Writing a vector, a storage or a table to a stream appends every label and every cell exactly once, in order and separated by single tabs, with one line per frame or row, and nothing else: a vector ends with a newline, a storage starts with the line of its labels, and a table starts with a line of column labels and each of its rows with the row label. A 3-vector, quaternion (real part first), pair of bounds, angle or path is written as its components in order, separated by single spaces. A property tree is written with one line per node, every node before its children and in order: the key indented by two blanks per level, padded with blanks to the width of the widest indented key in the tree, and followed by an equals sign and the value when the node has a value or has no children.',
  all='every number of rows and columns (including none), every property tree, and all labels and values',
  why='No test reads the text; a separator or line end that is wrong for a particular shape (one column, no frames) shows only there.',
  files=['flut/container_tools.hpp', 'flut/storage.hpp', 'flut/table.hpp', 'flut/math/vec3.hpp', 'flut/math/quat.hpp', 'flut/math/bounds.hpp', 'flut/math/angle.hpp', 'flut/system/path.cpp', 'flut/prop_node.cpp'], mech=[('operator<<', 'flut/storage.hpp'), ('to_stream / get_align_width', 'flut/prop_node.cpp'), ('operator<<', 'flut/table.hpp'), ('operator<<', 'flut/container_tools.hpp')],
  note=N0 + 'The loops are proved equal to recursive definitions of the text (for trees by recursion over the depth, with field widths and adjustment of the stream modelled); how a single number is written is an uninterpreted function.'),
 dict(id='C32', title='Conversions between representations of a rotation agree',
  statement='The quaternion built from a right-handed orthonormal frame is a unit quaternion that rotates the coordinate axes onto the axes of the frame, whatever the rotation (half turns included); a matrix built from three axes has them as its columns. Building a quaternion from the axis and angle of a unit quaternion gives it back, and the rotation vector is that axis scaled by that angle. Pitch, yaw and roll are the directions of the rotated y, z and x axis in the planes across the x, y and z axis, a vector of Euler angles lists them in that order, and it converts to a quaternion like the three single angles do.',
  all='every orthonormal frame, unit quaternion and Euler angle vector in every order (over the reals)',
  why='No test calls these conversions; each of the four cases of the frame conversion needs rotations from a different region, and a swapped index shows only for some of them.',
  files=['flut/math/quat.hpp', 'flut/math/mat33.hpp', 'flut/math/quat_type.hpp'], mech=[('quat_from_axes, axis_angle_from_quat, rotation_vector_from_quat, pitch / yaw / roll, euler_from_quat', 'flut/math/quat.hpp'), ('mat33_from_axes', 'flut/math/mat33.hpp')],
  note=N0 + 'quat_from_axes is proved in all four cases by elimination and ideal membership over the equations of an orthonormal frame. Floating-point arithmetic is treated as exact real arithmetic; atan2 is uninterpreted (the contract fixes its arguments).'),
 dict(id='C33', title='A property tree knows exactly which nodes were read',
  statement='A new or copied node counts as unread; reading the value of a node or looking among its children marks that node as read, reading or optionally fetching a child by key marks that child too, and no other node is marked by it. The number of unread nodes reported for a tree is exact at every depth, and as long as no children are added the marks stay until they are cleared, which makes every node of the tree unread without changing keys, values or structure. Failed lookups mark no child, and a default that is given out instead of a missing child is not marked.',
  all='every tree and every sequence of reads, lookups and resets (between additions of children, which may make siblings unread)', over=['inputs', 'histories'],
  why='No test looks at the marks; a missed mark or a miscount shows only for particular trees, repeated keys and access paths.',
  files=['flut/prop_node.hpp'], mech=[('access / is_accessed / count_unaccessed / clear_accessed_recursively', 'flut/prop_node.hpp')],
  note=N0 + 'The mark is part of the modelled state here (it is dropped in C26-C28); counting and clearing are proved by recursion over the depth of the tree.'),
 dict(id='C34', title='Property text is read as the tree it denotes',
  statement='Reading property text yields exactly the tree it denotes: a label is followed by an optional value after an equals sign and by an optional list of children in braces, in the order of the text; comments run to the end of their line, quoted tokens are unescaped, and blanks around tokens do not count. A token in a list of children that neither is a label nor ends the list makes reading fail with an error; the top level ends at the first token that is not a label. Reading ends for every text and never looks behind its end.',
  all='every text up to the maximal length, well-formed or not',
  why='No test reads property text; the recursive reader meets an unbounded number of combinations of quotes, comments, separators, nesting and truncation.',
  files=['flut/prop_node_tools.cpp', 'flut/char_stream.cpp', 'flut/char_stream.hpp'], mech=[('get_prop_token / read_prop_node / parse_prop', 'flut/prop_node_tools.cpp'), ('char_stream::get_token', 'flut/char_stream.cpp')],
  note=N0 + 'The reader is proved equal to recursive definitions over the text (tokens, nodes, lists), with the rest of the text as termination measure; rejection is the exceptional postcondition. Unquoted text directly before a quote in one token is dropped, as the tokeniser defines it.'),
 dict(id='C35', title='A saved property tree loads back as the same tree',
  statement='Reading the text that is written for a property tree, in the readable or in the compact format, gives a tree equal to the one that was written, and that text is never rejected. This holds for trees of any depth and width with any characters in labels and values, provided that labels start with a letter, labels and values do not begin or end with blanks and contain no NUL, and the root has no value of its own.',
  all='every such tree, in both formats, including empty values, empty nodes, and separators, quotes, braces and comment signs in labels and values',
  why='No test saves a tree; a character that is not quoted or a missing delimiter loses data only for particular texts and shapes.',
  files=['flut/prop_node_tools.cpp', 'flut/string_tools.cpp', 'flut/char_stream.cpp'], mech=[('write_prop_none', 'flut/prop_node_tools.cpp'), ('parse_prop / read_prop_node', 'flut/prop_node_tools.cpp'), ('quoted / try_quoted', 'flut/string_tools.cpp')],
  note=N0 + 'The writer is proved equal to a recursive definition of the text; that the definition of the reader maps this text back to the tree is a chain of lemmas by induction over the number of nodes (write_read). Opening and writing the file (save_prop, load_prop) is covered by the concrete runs only.'),
 dict(id='C36', title='A stopwatch accounts for all elapsed time, once and under the right tag',
  statement='Adding a measure books the time since the previous measure under the given tag: a tag that was used before accumulates, a new one is put behind the others, and the time of no other tag changes. No time is lost or counted twice: the times of all tags and the internal time of the stopwatch together always grow by exactly the time between the previous and the current measurement, and none of them ever decreases. The report lists every tag once, in order of first use, with its time, followed by the internal time, and it changes neither the measures nor the global number format.',
  all='every sequence of measures with all tags (repeated or not) and every sequence of readings of a monotonic clock', over=['inputs', 'histories'],
  why='No test uses the class; losing or double counting time shows only for particular sequences of repeated tags.',
  files=['flut/stopwatch.cpp', 'flut/stopwatch.hpp'], mech=[('add_measure / get_report', 'flut/stopwatch.cpp'), ('start_first_measure', 'flut/stopwatch.hpp')],
  note=N0 + 'The clock is ghost state that each reading may advance; conservation of time is a postcondition over a recursive sum of the measures.'),
 dict(id='C37', title='A factory creates exactly what was registered under a name',
  statement='After a class is registered under a name, every way of creating by that name (create, the call operator, the function returned by operator[], try_create) gives a new object of that class constructed from the given argument. Registering a name again replaces only what that name creates; no registration affects any other name. Creating by a name that was never registered throws, except through try_create, which then returns no object; has_type is true for exactly the registered names and empty exactly when there are none.',
  all='all sequences of registrations and creations with all names and arguments', over=['inputs', 'histories'],
  why='The test registers two classes under two names and creates each once; a wrong entry shows only for particular histories (a name registered twice, a lookup after several registrations).',
  files=['flut/factory.hpp', 'flut/flat_map.hpp'], mech=[('register_class / create / try_create / has_type', 'flut/factory.hpp'), ('operator[] / find', 'flut/flat_map.hpp')],
  note=N0 + 'A lambda stored in a std::function becomes a function constrained, for all arguments, to what the body of the lambda computes; an object is known by its class and constructor arguments.'),
 dict(id='C38', title='Names made from variables and types lose exactly their decoration',
  statement='The property name made from the name of a variable (tidy_identifier, which INIT_PROP and SET_PROP use for reading and writing settings) is the name without its decoration and nothing else: of a qualified name, what follows the last colon without underscores at either end; otherwise a name that starts with m_ loses this prefix and the underscores at its end, and every other name the underscores at both its ends. The result is a contiguous part of the name, contains no colon and never ends in an underscore; an undecorated name is returned as it is. The name of a type (clean_type_name) is what follows the last colon or blank in its readable name, and all of it when there is none.',
  all='all strings as names (empty, only underscores, only decoration, several colons)', over=['inputs'],
  why='No test calls either function; the cases differ only for particular combinations of colons, prefixes and underscores.',
  files=['flut/system_tools.cpp', 'flut/string_tools.cpp'], mech=[('tidy_identifier / clean_type_name', 'flut/system_tools.cpp'), ('trim_str, trim_right_str, str_begins_with', 'flut/string_tools.cpp')],
  note=N0 + 'Exact postconditions over search functions; the semantic statements (no colon, no trailing underscore, only decoration removed) are lemmas over them.'),
 dict(id='C39', title='An optional is present exactly when given a value, and holds the last one',
  statement='An optional that was not given a value is false; after construction from or assignment of a value it is true and gives back exactly that value (for integers, whose lowest or, if unsigned, highest value is reserved for being empty: every value but the reserved one). Reading an optional from a text stream gives it the value that reading the plain type would give and leaves it exactly as it was when nothing could be read, consuming the same text in either case.',
  all='all values (but the reserved one), all texts and reading positions, all sequences of assignments and reads, over integer, unsigned and class types', over=['inputs', 'histories'],
  why='The header is included by a test but never used by one; values next to the reserved one and failed reads are not sampled.',
  files=['flut/math/optional.hpp', 'flut/char_stream.hpp'], mech=[('optional, operator>>', 'flut/math/optional.hpp'), ('operator>>', 'flut/char_stream.hpp')],
  note=N0 + 'Which constant of the standard library is signed is settled by a static_assert in the wrapper, not assumed.'),
]

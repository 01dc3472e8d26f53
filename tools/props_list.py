TODO = 'check not built yet'
prop('C01', 'Hexadecimal codec is exact, in-bounds and invertible',
     'Encoding any byte range to hexadecimal writes exactly two upper-case digits per byte, most significant nibble first, and nothing else. '
     'Decoding accepts exactly the non-empty even-length inputs, yields for each pair of valid hex digits (either case) the byte they denote, and leaves the target untouched when it rejects. '
     'Consequently decoding an encoding returns the original bytes, and no byte outside the given ranges is ever read or written.',
     'every byte sequence of every length, through every overload of the encoder and decoder',
     'the examples encode a handful of fixed strings; a fault that needs one particular byte value, length or overload is not sampled',
     [('convert_bin_to_hex', 'strtk.hpp:4384'), ('convert_hex_to_bin', 'strtk.hpp:4467')],
     note='all overloads, all lengths; std::string members are assumed contracts')
prop('C02', 'Base64 codec is exact, in-bounds and invertible',
     'Encoding any n bytes writes exactly 4*ceil(n/3) characters: the standard base64 digits of the bytes, padded at the end with one or two equals signs. '
     'Decoding well-formed text yields exactly the bytes it denotes, and decoding an encoding returns the original bytes. '
     'For any input at all, well-formed or not, the decoder writes at most 3/4 of the input length and touches no byte outside the given ranges.',
     'every byte sequence of every length, and every character sequence given to the decoder, through every overload',
     'the examples encode a few fixed strings; a fault that needs a particular byte value, residue of the length or malformed ending is not sampled',
     [('convert_bin_to_base64', 'strtk.hpp:4563'), ('convert_base64_to_bin', 'strtk.hpp:4628')],
     note='all overloads, all lengths; decode values for well-formed text, bounds for every text; std::string members are assumed contracts')
prop('C03', 'Text to integer conversion is exact and never out of range',
     'Converting text to any integer type succeeds exactly when the text is an optional sign (minus only for signed types) followed by one or more decimal digits and the number it denotes is representable in the target type. '
     'On success the target holds exactly that number, at both ends of the range too; on failure the target is unchanged (or the value-returning form throws). '
     'One-character targets accept exactly one character; no character outside the given range is read.',
     'every character sequence of every length, every integer target type, every overload',
     'tests sample a few well-formed numbers; the boundary values, long zero prefixes and stray characters that break a conversion are a vanishing fraction of all texts',
     [('string_to_type_converter', 'strtk.hpp:372'), ('string_to_type_converter_impl (unsigned)', 'strtk.hpp:17378'), ('string_to_type_converter_impl (signed)', 'strtk.hpp:17436'), ('numeric limits', 'strtk.hpp:16867')],
     note='all 8 integer types + char types + bool, 7 overloads each, every text; exception construction is an assumed contract')
prop('C04', 'Integer to text conversion is canonical and round-trips',
     'Converting any integer value to text produces its canonical decimal form: a minus sign exactly for negative values, no leading zeros, and digits that denote exactly that value. '
     'Converting that text back to the same type yields the original value, for every value including both extremes.',
     'every value of every integer type',
     'tests sample some ranges; 64-bit values cannot be enumerated and one wrong table entry or group boundary affects few of them',
     [('type_to_string', 'strtk.hpp:421'), ('type_to_string_converter_impl (unsigned)', 'strtk.hpp:17877'), ('type_to_string_converter_impl (signed)', 'strtk.hpp:17935'), ('rev_3digit_lut / rev_2digit_lut', 'strtk.hpp:16726')],
     note='all integer types, all values; std::string members are assumed contracts')
prop('C05', 'Splitting yields exactly the fields of the text, for every option',
     'Splitting a text by a delimiter character, a set of delimiter characters or a predicate emits, in order, exactly the ranges that the chosen options define: fields between delimiters, runs of delimiters kept as empty fields or compressed, with none, the first or all of the delimiters that follow a field included in it. '
     'A text that ends with a delimiter yields a final empty field, an empty text yields none, and the returned count is the number of ranges emitted. '
     'Every emitted range lies inside the text and no character outside the text is read.',
     'every text, every predicate or delimiter set, all eight option combinations, every overload',
     'examples split a few fixed lines; runs of delimiters at particular places, unusual delimiter bytes and option combinations are not sampled',
     [('split', 'strtk.hpp:3342'), ('details::split_compress_delimiters', 'strtk.hpp:3304'), ('single_delimiter_predicate / multiple_char_delimiter_predicate', 'strtk.hpp:1016'), ('for_each_token', 'strtk.hpp:4110')],
     note='predicate and consumer are arbitrary (hooks); texts are character ranges and std::string (other iterators share the template); std::string members are assumed contracts')
prop('C06', 'Tokenizer iteration visits exactly the fields of the text',
     'Iterating a tokenizer from begin to end visits, in order, exactly the fields that splitting the same text with the same delimiter predicate and options yields, including a final empty field when the text ends with a delimiter and nothing for an empty text. '
     'The iteration ends after the last field and reads no character outside the text; prefix and postfix increment, re-assignment of the text and assignment of a tokenizer agree.',
     'every text, every predicate, the six documented option combinations, every way to build or re-target the tokenizer',
     'the iterator carries hidden state from step to step; a step that goes wrong only after a particular history (trailing delimiters, a compressed run at the end, a re-assigned text) is not sampled',
     [('tokenizer / tokenizer_iterator', 'strtk.hpp:2336'), ('tokenizer::assign', 'strtk.hpp:2548')],
     note='predicate and consumer are arbitrary (hooks); include-first and include-all given together is left out (undocumented)')
prop('C07', 'Bounded, offset and pair splitting take exactly the leading fields',
     'Splitting with a field limit emits exactly the first so many fields that the unlimited split of the same text, delimiters and options emits, and returns how many that was. '
     'Splitting by a list of lengths emits consecutive ranges of exactly those lengths, in list order (starting over when rotating, ending at the end of a list otherwise), the last one cut at the end of the text. '
     'Splitting into a pair yields the text before and after the first delimiter and succeeds exactly when something follows that delimiter.',
     'every text, limit, length list, predicate or delimiter set, option combination and overload',
     'examples use a few fixed lines; a limit that coincides with a compressed run, an exhausted or rotating length list, or a delimiter at the very end are not sampled',
     [('split_n', 'strtk.hpp:3557'), ('offset_predicate / offsets', 'strtk.hpp:3872'), ('offset_splitter', 'strtk.hpp:4017'), ('split_pair', 'strtk.hpp:4057')],
     note='predicate, consumer and (for offset_splitter) the length source are arbitrary (hooks); offset_predicate proved for list sizes 1 to 12; std::string members are assumed contracts')
prop('C08', 'In-place removal keeps exactly the elements it must, in order',
     'Removing by predicate or index keeps exactly the elements that do not match, in their original order; collapsing keeps the first of each run of equal (or of matching) elements; removing duplicates keeps the first occurrence of each character. '
     'Trimming the front or the back removes exactly the maximal matching prefix or suffix, down to nothing when everything matches. '
     'The returned counts and the final lengths agree with what was removed, and nothing outside the sequence is read or written.',
     'every text and element sequence, every predicate, character or character set, every ascending index list, every overload',
     'examples clean a few fixed lines; a run at the very end, a sequence that matches entirely or a byte with the high bit set is not sampled',
     [('remove_inplace / index_remover', 'strtk.hpp:1147'), ('remove_consecutives_inplace', 'strtk.hpp:1264'), ('remove_duplicates', 'strtk.hpp:1433'), ('remove_trailing', 'strtk.hpp:1457'), ('remove_leading', 'strtk.hpp:1534')],
     note='predicates are arbitrary (hooks); element types char and int; std::string members are assumed contracts; remove_empty_strings (containers of strings) is not covered')

prop('C09', 'Binary reader and writer move exactly their bytes and never leave the buffer',
     'From any position, a read succeeds exactly when the bytes it needs are still in the buffer, yields the little-endian (or the requested endian) value of exactly those bytes, and advances by exactly that many; a write succeeds exactly when there is room, stores exactly the bytes of the value and touches no other byte. '
     'A failure leaves the position inside the buffer (unmoved, or behind a length prefix already taken) and the target as it was; seeking, rewinding, marks and reset move to exactly the stated place or not at all. '
     'What a writer wrote, a reader of exactly those bytes reads back; 16, 32 and 64-bit byte swaps reverse the bytes.',
     'every buffer content and size, position, value, count, text and (corrupt) length prefix',
     'a truncated or corrupted buffer, a size near the end of the buffer or near the integer limits, or a byte pattern with all bytes different is not sampled',
     [('binary::reader', 'strtk.hpp:13875'), ('binary::writer', 'strtk.hpp:14323'), ('binary::details::convert', 'strtk.hpp:13751'), ('binary::details::short_string_impl', 'strtk.hpp:14730')],
     note='element types char, short, int, 64-bit; sequences: vector, and deque and list when reading; other containers and containers of non-plain values are not covered; std::stack and std::string members are assumed contracts')
prop('C10', 'Record packing lays values out back to back',
     'Packing one to twelve values, an array or a vector writes exactly their bytes one after the other, returns the address behind the last one and touches no other byte; unpacking the same types from any bytes yields at each place the value stored there, returns the same end address and does not change the data.',
     'every value, every record content and address',
     'examples use one record layout; a pair of positions that is swapped or a size taken from a neighbour shows only with particular types and values',
     [('read_pod', 'strtk.hpp:19068'), ('write_pod', 'strtk.hpp:19299')],
     note='one layout of mixed 1, 2, 4 and 8 byte types per arity; the caller must provide the space, the functions have no length')
prop('C11', 'A Bloom filter never forgets a key',
     'Inserting a key sets exactly the bit positions that its hashes select and clears none; a key is reported as contained exactly when all of them are set, so every inserted key is found until the filter is cleared or intersected. '
     'Copies and assignments hold the same bits in a table of their own; union, intersection and difference combine two filters of the same parameters bit by bit and leave others alone; clearing empties the table. '
     'Compressing folds the table so that every key inserted before is still found. No operation reads or writes outside the key or the table, whatever the table size.',
     'every key, table content, table size, number of hashes, union, copy and sequence of compressions',
     'examples use one size and a few keys; a table size that is not a multiple of eight, a second or a large compression, or a copied filter is not sampled',
     [('bloom::filter', 'strtk.hpp:19984'), ('bloom::compressible_filter', 'strtk.hpp:20575'), ('bloom::filter::hash_ap', 'strtk.hpp:20503')],
     note='floating-point sizing (compute_optimal_parameters) and file storage are not covered; constructor contract for at most 128 hash functions; union of two compressible filters only when they were compressed alike; slicing a compressed filter to the base class is not covered')

prop('C12', 'Bit counting, bit access, interleaving and bitwise transforms are exact',
     'Bit counts and Hamming distances equal the number of one (or differing) bits or elements of all bytes, and the distance of texts of different length is the maximum value. '
     'Testing, setting and clearing a bit concern exactly the addressed bit and keep every other one. '
     'Interleaving puts bit k of the first input at place 2k and bit k of the second at place 2k+1 of a result twice as long; interleave tables spread every byte the same way; bitwise and, or and exclusive-or combine byte by byte. '
     'Nothing outside the inputs and the result is read or written, and inputs of different length leave the output alone.',
     'every byte text, every pair of texts, every integer, bit index and table entry',
     'examples use a few fixed texts; one wrong entry of a 256-entry table or an odd length is not sampled',
     [('twoway_bitwise_interleave', 'strtk.hpp:4863'), ('create_nway_interleave_table', 'strtk.hpp:4957'), ('bitwise_transform', 'strtk.hpp:4980'), ('high_bit_count', 'strtk.hpp:5020'), ('bit_state / set_bit_high / set_bit_low', 'strtk.hpp:5090'), ('hamming_distance', 'strtk.hpp:5140')],
     note='the caller of a raw-pointer overload provides the output space; std::string members are assumed contracts')

prop('C13', 'Wildcard matching decides exactly the language of the pattern',
     'A pattern matches a text exactly when the text can be cut into pieces such that every zero-or-more wildcard takes any piece, every zero-or-one wildcard takes at most one element, and every other pattern element takes one equal element (equal up to case of letters under the case-insensitive comparator). '
     'This holds for every combination and order of wildcards, for the empty pattern and the empty text, and nothing outside the pattern and the text is read.',
     'every pattern, text, choice of the two wildcard elements, char, unsigned char and int sequences, std::string',
     'examples use one wildcard per pattern; patterns that need backtracking, wildcards next to each other or at the ends are not sampled',
     [('details::match_impl', 'strtk.hpp:1903'), ('match', 'strtk.hpp:1950')],
     note='std::string members and the std::vector constructor are assumed contracts')

prop('C14', 'Text comparison and search give the exact answer',
     'Comparing two texts ignoring case is true exactly when they have equal length and agree, up to the case of letters, at every place; the begins-with and ends-with tests, with and without case, are true exactly when the pattern is a prefix or suffix. '
     'Finding all occurrences reports, left to right and without overlap, exactly the places where the pattern occurs (with or without case) and returns their number, ending for every pattern; ifind and index_of return the first place. '
     'A string condition, also a copied or assigned one, decides exactly the relation it was built for. Nothing outside the texts is read.',
     'every pair of texts, pattern and overload',
     'examples use short words; empty patterns, a pattern longer than the text, repeated or overlapping occurrences, letters next to the alphabet and copied conditions are not sampled',
     [('imatch', 'strtk.hpp:1977'), ('find_all / ifind / ifind_all / index_of', 'strtk.hpp:2045'), ('begins_with / ends_with / ibegins_with / iends_with', 'strtk.hpp:2157'), ('string_condition', 'strtk.hpp:19517')],
     note='std::search, memcmp, toupper (C locale) and std::string members are assumed contracts; imatch against containers of strings is not covered')

prop('C15', 'Text transformations rewrite exactly what they name',
     'Character replacement, case conversion, conversion to printable text and translation through a table change every element to exactly what it maps to and keep the rest; a translation table maps a character of the input table to its partner in the output table, any other character to itself, for every character value, and refuses tables of different length. '
     'Replacing a pattern yields the text with every occurrence, taken left to right without overlap, replaced and everything between kept, with exactly that length, whichever overload and kind of output is used; an empty pattern leaves the text as it is; removing a pattern is replacing it by nothing. '
     'Nothing outside the inputs and a result of that size is read or written.',
     'every text, pattern, replacement, table and overload',
     'examples replace words in short ASCII texts; repeated, overlapping or adjacent occurrences, replacements of another length, characters above 0x7F and pointer outputs are not sampled',
     [('replace', 'strtk.hpp:1664'), ('replace_pattern / remove_pattern', 'strtk.hpp:1695'), ('convert_to_printable_chars', 'strtk.hpp:4737'), ('convert_to_uppercase / convert_to_lowercase', 'strtk.hpp:4796'), ('translation_table', 'strtk.hpp:11793')],
     note='texts and patterns below 2 GiB; the result is a text other than the inputs; std::string members, toupper/tolower (C locale) and std::vector members are assumed contracts')

prop('C16', 'Sequence summaries and generators are exact',
     'Counting consecutive duplicates returns the number of elements equal to their predecessor. The extremes of a range are its smallest and largest element. The first non-repeated character is the first one that occurs exactly once, for every character value, and the end (or npos) when there is none. '
     'The canonical form of a text is the smallest of its rotations. A counting fill writes v, v+1, ... to exactly the places asked for. Replicating a text n times yields n copies behind one another (in place: the text and n more). '
     'Inserting a value at every k-th place writes the elements in order with the value behind every k-th one, and returns the number of elements written. Nothing outside the range is read or written; an empty range is fine (except for the extremes).',
     'every sequence, count, interval and overload',
     'examples use a few short sequences; pairs, negative characters, periodic texts, new minima behind the maximum are not sampled',
     [('count_consecutive_duplicates', 'strtk.hpp:4137'), ('min_max_of_range', 'strtk.hpp:4205'), ('lexicographically_canonicalize', 'strtk.hpp:4256'), ('first_non_repeated_char', 'strtk.hpp:4328'), ('replicate / replicate_inplace', 'strtk.hpp:11390'), ('interval_inserter / inserter / iota', 'strtk.hpp:11560')],
     note='std::rotate and std::string members are assumed contracts; the interval is at least 1; a counting fill of int does not run past INT_MAX; the container forms of iota, cut and bracketize are not covered')

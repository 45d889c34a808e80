import json
L='nanvm-lib/src/'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    a={"files":[L+f if not f.startswith('nanvm/') else f for f in files],
       "mechanism":[{"name":n,"where":L+w if not w.startswith('nanvm/') else w} for n,w in mech],
       "observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":L+w} for n,m,w in state]
    assert len(title)<=80,title
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Every text is split into exactly the tokens of the lexical grammar",
 "For every text the tokenizer terminates without panicking and returns exactly the token sequence of the DJS lexical grammar: punctuators, identifiers, numbers, bigints, strings, comments, one new-line token per run of blank space that starts with a line feed or with the line end (LF or CR) that closes a `//` comment (none when the text ends there), and the documented error token (unexpected character, invalid number, invalid hex, missing quotes, unclosed comment) for every place that fits none. Tokenizing goes on after an error token, so nothing after it is lost or invented. Feeding the same text one character at a time yields the same tokens in the same order as tokenizing it at once.",
 ["inputs","histories"],"all finite Unicode texts, and all ways to feed them incrementally",
 "The tests sample about a hundred short texts; the lexer is a 20-state automaton driven by merged range maps, and a wrong transition shows only for a particular state and character.",
 ["tokenizer/mod.rs","range_map.rs"],[("TokenizerState::push / end","tokenizer/mod.rs"),("create_*_transitions (one range map per state)","tokenizer/mod.rs")],
 ["tokenize()","TokenizerState::push_mut()","TokenizerStateIterator"],[("TokenizerState","control state and the partly read token","tokenizer/mod.rs")])
p("C02","Number literals denote the nearest double, bigint literals the exact integer",
 "Every accepted number literal denotes the IEEE-754 double nearest to its exact decimal value, ties to even, including subnormal results, results that overflow to an infinity, results that underflow to zero, and the sign of zero. Every accepted bigint literal denotes exactly its integer. The value does not depend on leading or trailing zeros, on the length of the literal, or on the size of its exponent, and no exponent makes the conversion hang or panic.",
 ["inputs"],"all number and bigint literals: any number of digits, any exponent",
 "The tests convert a few dozen literals; wrong rounding needs a literal close to the midpoint of two doubles, a subnormal boundary or a very long digit string or exponent.",
 ["tokenizer/mod.rs","big_numbers/big_float.rs","js/js_bigint.rs"],[("bigfloat_to_f64, exp_state_into_token, IntState/FloatState/ExpState","tokenizer/mod.rs"),("BigFloat::to_bin / to_f64","big_numbers/big_float.rs")],
 ["tokenize() on a literal","parse() on a literal"])
p("C03","String literals denote exactly the characters and escapes written in them",
 "The value of a string literal is the sequence of the characters written in it, with every escape sequence (quote, backslash, slash, b, f, n, r, t and four hexadecimal digits in either case) replaced by the character it denotes, and a high surrogate escape followed by a low surrogate escape replaced by the one character the pair denotes. Malformed escapes (unknown escape character, a non-hexadecimal digit, an unpaired surrogate) produce an error token and never a wrong string. Strings that reach the value model are the UTF-16 form of that value.",
 ["inputs"],"all string literals: all characters, all escapes, all 65536 four-digit escapes and all surrogate pairs",
 "The tests cover a handful of escapes; 65536 code units and a million pairs are not sampled.",
 ["tokenizer/mod.rs","parser/shared.rs"],[("ParseUnicodeCharState, create_escape_char_transactions","tokenizer/mod.rs"),("to_js_string","parser/shared.rs")],
 ["tokenize()","parse()"])
p("C04","A value text parses to exactly the value it denotes, or to the right error",
 "A text without statements is accepted exactly when it is one value of the grammar (null, true, false, number, bigint, string, array, object; one trailing comma allowed; blank lines and comments anywhere), and the result is the denoted value: array items in order, object properties sorted by key with the last duplicate winning. A text that stops in the middle of a value is reported as unexpected end; every other malformed text is reported as unexpected token. Parsing terminates without a panic for every token sequence.",
 ["inputs"],"all token sequences, nesting up to 1000",
 "The tests parse about forty texts; the grammar is a push-down automaton with 12 statuses whose wrong transitions appear only at particular depths and token pairs.",
 ["parser/any_state.rs","parser/json_state.rs","parser/parser.rs","parser/shared.rs"],[("AnyState::parse_*","parser/any_state.rs"),("end_array / end_object / push_value","parser/any_state.rs")],
 ["parse()","parse_with_tokens()"],[("AnyState.status/current/stack","position in the value being built","parser/any_state.rs")])
p("C05","Module statements follow the dialect rules and bind constants",
 "A module is a sequence of const and import statements, each on its own line or ended by a semicolon, then a value that is plain, after `export default` or after `module.exports =`; a text is accepted exactly when it follows this form and does not mix ES-module statements with CommonJS ones, and the reported dialect (JSON, DJS, CommonJS, ES module) is the one its statements and require calls imply. A constant stands for its value wherever a value is allowed after its definition, and all its uses share one array or object rather than copies. Each malformed statement is reported with its own kind of error, and identifier keys are accepted exactly in the non-JSON dialects.",
 ["inputs","programs"],"all module texts (token sequences) with any number of statements",
 "The tests hold about ten modules; the dialect is carried through every statement and value, so a wrong update is visible only for particular combinations of statements.",
 ["parser/root_state.rs","parser/const_state.rs","parser/parser.rs","parser/any_state.rs","parser/shared.rs"],[("RootState::parse, RootStatus","parser/root_state.rs"),("DataType::to_djs/is_*_compatible","parser/shared.rs"),("root_state_parse, const_state_parse","parser/parser.rs")],
 ["parse()","ParseResult.data_type"],[("data_type, consts, new_line","dialect so far, constants, whether a statement may start","parser/root_state.rs")])
p("C06","Modules are resolved against the importer, loaded once, shared, and cycles found",
 "An import or require names a file relative to the directory of the module that contains it; each imported file that loads is read once per cache, when it is first needed, in the order of the references, and every importer of a file gets the same shared value. Loading always terminates: a module that is reached again while it is being loaded is reported as a circular dependency, a file that cannot be read as such, and an error in an imported module is the error of the importer. After a failure the cache holds exactly the modules that were loaded completely and nothing is marked as in progress, so that a later load with the same cache behaves as if the failed one had only loaded those modules.",
 ["inputs","histories","fault_sequences","configurations"],"all file systems, import graphs (cyclic ones, diamonds, self imports), read faults at any point, and sequences of loads with one cache",
 "The tests load five fixed graphs from one directory in one load each; wrong resolution, double loading and stale progress marks need nested directories, diamonds, faults or a second load.",
 ["parser/parser.rs","parser/path.rs","parser/shared.rs"],[("any_state_parse_import_value, root_state_parse, parse","parser/parser.rs"),("concat/normalize/split","parser/path.rs"),("ModuleCache","parser/shared.rs")],
 ["Io::read_to_string calls","parse()","ModuleCache"],[("ModuleCache.complete/progress","modules loaded / being loaded","parser/shared.rs")])
p("C07","JSON output is valid and denotes exactly the value that was written",
 "For every value without bigints and NaNs, JSON serialization yields a text that every RFC 8259 reader accepts and reads back as exactly that value: the same nulls, booleans, doubles (bit for bit, infinities as overflowing literals), array items and object properties in order, and strings with the same UTF-16 code units, unpaired surrogates included. A value that JSON cannot express (a bigint or a NaN anywhere in it) is an error, not a wrong text. Serialization never changes or frees the value.",
 ["inputs"],"all values: all doubles, all strings of 16-bit units, any nesting up to 1000 and sharing",
 "The tests serialize two values; escaping and number formatting have many special cases (control characters, surrogates, extreme exponents, empty containers).",
 ["serializer/to_json.rs"],[("WriteJson","serializer/to_json.rs")],["to_json()"])
p("C08","DJS output re-creates the value with its sharing",
 "For every acyclic value without NaNs whose strings are well-formed UTF-16, DJS serialization in either module dialect yields a module that the loader accepts in that dialect and reads back as the same value: same doubles, bigints, strings, items and properties. Two places of the result are the same array or object exactly when they were in the source, so every shared array or object is written exactly once, as a constant defined before its first use, and nothing else is. The size and time of the output are proportional to the number of distinct nodes, not to the number of paths.",
 ["inputs"],"all value graphs without cycles: any sharing pattern of arrays and objects",
 "The tests serialize three small graphs with one sharing pattern each.",
 ["serializer/to_djs.rs","serializer/to_json.rs","js/any.rs"],[("ConstTracker, write_compound_const, write_with_const_refs","serializer/to_djs.rs"),("Any: Eq/Hash by identity","js/any.rs")],["to_djs()","parse(to_djs(x))"])
p("C09","An object lives exactly as long as some handle to it",
 "An object allocated by a manager stays readable and unchanged as long as at least one handle (reference, mutable reference, dynamic value, or property of a live object) refers to it, and it and what only it refers to are dropped and freed exactly once, when the last handle goes. Mutable access is given exactly when the requester holds the only handle; otherwise the reference comes back unchanged. Cloning, moving, casting and failed conversions of handles neither leak nor free anything early.",
 ["histories"],"all sequences of create, clone, move, cast, convert, nest, unnest and drop on any number of objects of all kinds",
 "The tests run five straight-line histories; a leak or early free needs a particular history (e.g. failing conversion of a shared handle, nested drop) and is usually invisible to assertions.",
 ["mem/ref_.rs","mem/mut_ref.rs","mem/optional_ref.rs","mem/optional_block.rs","mem/block.rs","mem/block_header.rs","js/any.rs","js/any_internal.rs","js/any_cast.rs"],
 [("ref_counter_update","mem/optional_block.rs"),("OptionalRef::clone/drop, try_to_mut_ref","mem/optional_ref.rs"),("AnyInternal::delete","js/any_internal.rs")],
 ["Dealloc::dealloc calls","Drop of the contents","try_to_mut_ref results"],[("reference counter","number of shared handles minus one","mem/block_header.rs")])
p("C10","No operation leaks memory or frees memory it does not own",
 "After any sequence of public operations (tokenizing, parsing with any input, error or read fault, loading modules, serializing, bigint and float arithmetic, building and dropping values) and after all results and caches are dropped, every block taken from the memory manager has been given back exactly once with the size and alignment it was taken with. While values are alive, the accounted size of a local manager is the sum of the blocks in use.",
 ["inputs","histories","fault_sequences"],"all public operations, inputs and failure points",
 "Tests check accounting in one history of three objects; none checks that parsing, errors or arithmetic give back what they take.",
 ["mem/local.rs","mem/global.rs","mem/manager.rs","mem/block.rs","js/js_bigint.rs","parser/parser.rs","tokenizer/mod.rs"],[("Local::alloc/dealloc","mem/local.rs"),("Block::delete","mem/block.rs")],
 ["Local::size()","Manager::alloc / Dealloc::dealloc"],[("Local.size","bytes in use","mem/local.rs")])
p("C11","A dynamic value keeps its type and content, whatever it holds",
 "Any double, boolean, null, string, object, array or bigint put into a dynamic value has exactly its own type, comes back bit for bit (every NaN as a NaN) when asked for as that type, and is refused when asked for as any other type, which leaves other holders of the same value as they were. Two dynamic values are equal exactly when they hold the same bits or the same object, and equal ones hash alike. Iterating visits every item or property once, in order, and stops at the first error.",
 ["inputs"],"all 2^64 double bit patterns (NaNs included), all heap addresses, all pairs of types",
 "Tests try a few values of each type; tags share the bit space with doubles, so one wrong mask is visible only for particular bit patterns.",
 ["js/any.rs","js/any_cast.rs","js/any_internal.rs","js/bitset.rs","js/number.rs","js/bool.rs","js/null.rs","js/visitor.rs","common/bit_subset64.rs"],[("subset masks","js/bitset.rs"),("Any::get_type/try_move/try_ref/is/for_each","js/any.rs")],
 ["Any::move_from/get_type/try_move/try_ref/is","to_visitor()","Any::for_each()"])
p("C12","Bigint sum, difference, product, power, order and equality are exact",
 "For all bigints, sum, difference, product, negation, power, comparison and equality give the exact mathematical result as a normalized bigint (no leading zero digits, no negative zero), and the operands are unchanged. A negative exponent, or an exponent of 2^64 or more for a base other than 0, 1 and -1, is refused with a panic and never a wrong number.",
 ["inputs"],"all bigints of any number of 64-bit digits and both signs",
 "Tests use a few one- to three-digit operands; carries, borrows and sign cases depend on digit patterns.",
 ["js/js_bigint.rs"],[("add, sub, mul, negative, pow, pow_u64, compare, equals, new_bigint","js/js_bigint.rs")],["js::js_bigint functions"])
p("C13","Bigint division gives the exact quotient and remainder",
 "For all bigints a and b, b not zero, division terminates and gives the quotient rounded toward zero and the remainder a minus quotient times b (same sign as a, smaller than b in magnitude), both normalized. Division by zero panics.",
 ["inputs"],"all pairs of bigints of any length and sign",
 "Tests divide about a dozen pairs; a quotient digit estimate can be off only for particular leading digits.",
 ["js/js_bigint.rs"],[("div_mod","js/js_bigint.rs")],["js::js_bigint::div_mod"])
p("C14","Bigint bitwise operations and shifts act on infinite two's complement",
 "For all bigints, and, or, xor, and not give the result of the operation on the infinite two's complement form, and shifting by any count (a negative count shifts the other way) equals multiplying by a power of two or dividing by it and rounding down. Results are normalized, operands unchanged. A left shift by 2^64 or more is refused with a panic, never a wrong number.",
 ["inputs"],"all bigints of any length and sign, all shift counts",
 "Tests use one- and two-digit operands; carries of the two's complement conversion depend on digit patterns.",
 ["js/js_bigint.rs"],[("and, or, xor, not, shl, shr, to_twos_complement","js/js_bigint.rs")],["js::js_bigint functions"])
p("C15","The plain BigUint and BigInt numbers are exact",
 "For all unsigned and signed big numbers, sum, product, quotient, remainder, power, shifts and comparison are exact (differences of unsigned numbers stop at zero, quotients round toward zero, remainders have the sign of the dividend), conversion from machine integers, conversion to the bigints of the value model and absolute value and negation are exact, and results are normalized with one zero. Division by zero panics.",
 ["inputs"],"all numbers of any number of 64-bit digits, all shift counts and exponents",
 "Tests use small operands.",
 ["big_numbers/big_uint.rs","big_numbers/big_int.rs"],[("operators of BigUint / BigInt","big_numbers/big_uint.rs")],["BigUint and BigInt operators"])
p("C16","Binary float conversion is exact or correctly rounded",
 "Converting a decimal big float to binary with a given precision keeps at least that many leading bits of the exact value and records whether anything non-zero was cut off; converting a binary big float to a double gives the nearest double, ties to even, taking the cut-off remainder into account, for every significand, exponent and sign, including subnormals, overflow and zero.",
 ["inputs"],"all significands of any length, all exponents, both signs, with and without remainder",
 "Tests cover a few dozen combinations; rounding errors need ties, carries into the exponent or the subnormal boundary.",
 ["big_numbers/big_float.rs"],[("BigFloat::to_bin, to_f64","big_numbers/big_float.rs")],["BigFloat::to_bin()","BigFloat::to_f64()"])
p("C17","A merged range map returns for each key the value of the right range",
 "For every list of range maps that do not conflict, merging them gives a map that returns for every key the value of the map whose range contains the key, and the default where none does, whatever the order of merging. Its ranges are sorted by key. Two maps that give different values to one key are never merged silently.",
 ["inputs"],"all range maps over all keys",
 "Tests merge a few maps and look up a few keys; boundaries between ranges are the error-prone part.",
 ["range_map.rs"],[("RangeMap::get, merge, merge_list, from_range, from_one","range_map.rs")],["RangeMap::get","merge()","merge_list()"])
p("C18","Bit subsets contain exactly their values",
 "A bit subset made from a tag and a mask contains exactly the 64-bit values that agree with the tag outside the mask; splitting one gives two disjoint subsets, one with the split bits set and one with them clear, which together contain exactly its values when a single bit is split; its tag, union and mask are the bitwise and, the bitwise or and the agreeing bits of all its values; the unchecked `or` of two subsets is the smallest subset that contains both, `and` holds exactly the values they share (none: refused with a panic); and a raw value that fits the mask, or a typed value, put into a subset is a member from which the same value is read back.",
 ["inputs"],"all tags, masks and values",
 "The tests check a few constants.",
 ["common/bit_subset64.rs","js/bitset.rs"],[("BitSubset64::from_tag/has/split/union","common/bit_subset64.rs")],["BitSubset64 functions"])
p("C19","Path resolution gives the file a POSIX shell would name",
 "Normalizing a slash-separated path gives a path without empty, `.` or avoidable `..` segments that names the same file when directories are resolved segment by segment from any starting directory; it keeps the leading slash of an absolute path, never climbs above the root, and normalizing twice changes nothing. Joining a directory and a relative path names the file found by walking the relative path from that directory, and splitting a path gives its directory and its last segment.",
 ["inputs"],"all paths (all strings as segments, any number of `.`, `..` and empty segments)",
 "Tests normalize five paths.",
 ["parser/path.rs"],[("normalize, concat, split","parser/path.rs")],["normalize()","concat()","split()","paths read while loading modules"])
p("C20","The converter writes the right output once, or fails and writes nothing",
 "The command-line converter reads its input module and the modules it imports, and writes one output file exactly once, with the content for the format its extension names (.json, .d.cjs, .d.mjs). If an argument is missing, the extension is unknown, a file cannot be read, a module is malformed or the value cannot be expressed, it writes nothing and the process ends with a non-zero exit code and a message; if writing fails, that is reported the same way. It exits with zero exactly when the output was written.",
 ["inputs","fault_sequences","configurations"],"all argument lists, file systems and failing reads or writes",
 "The tests convert three files successfully and check three failures with an in-memory file system that never fails a write; the process exit code is never checked.",
 ["app/mod.rs","nanvm/src/main.rs"],[("run","app/mod.rs"),("main","nanvm/src/main.rs")],["Io::write calls","result of run()","process exit code and files"])
p("C21","Blocks hold header and elements without overlap and with right alignment",
 "For every header type, element type and length, a block is laid out so that reference counter, object header and elements do not overlap, lie inside the allocated memory and are aligned for their types; the elements read back are the ones the block was built from, in order; writing one element changes no other. When a block is freed, the header and each element are dropped exactly once and the memory is returned with the layout it was allocated with.",
 ["configurations","inputs"],"all combinations of size and alignment of counter, header and element types, all lengths",
 "Tests check a few layouts; overlap or misalignment depends on the combination of sizes and alignments.",
 ["mem/block.rs","mem/field_layout.rs","mem/flexible_array/mod.rs","mem/flexible_array/constructor.rs","mem/fixed.rs","mem/manager.rs","mem/object.rs","mem/local.rs"],
 [("FieldLayout","mem/field_layout.rs"),("Block::block_layout/object/delete","mem/block.rs"),("FlexibleArray::items/object_size/object_drop","mem/flexible_array/mod.rs")],
 ["addresses of items","Manager::alloc / Dealloc::dealloc layouts","drop counts"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))

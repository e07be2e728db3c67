R_ = "src/match_rule/"
D = "src/decode/"
V = "src/value/"

prop("C01", "No public function panics, whatever it is given",
     "No function of the public interface panics: not on malformed, truncated or hostile bytes or texts, not on values at the "
     "limits of the format, and not by arithmetic overflow. Whatever cannot be done is reported as an error.",
     ["inputs"], "every argument of every public function",
     "A decoder for untrusted input meets lengths, offsets and texts no test thought of; each slice, index, unwrap and sum may fail.",
     [D + "decoder.rs", D + "message/header.rs", "src/encode/encoder.rs", R_ + "decode.rs", V + "type_enum.rs"],
     [("panic edges", "every bounds check, overflow check, unwrap, expect and slice in functions reachable from the public interface")],
     technique=AI + ": every panic edge shown infeasible by the facts of its path")

prop("C17", "Names, paths, arrays, structs and argument rules only exist well-formed",
     "There is no way to get a value of a name type or an object path whose text violates its grammar, an array with an element "
     "of another type than its element type, a struct without members or an argN rule (`Arg`) with an index above 63 out of the "
     "public interface: no constructor, conversion or modification (like appending to an object path) yields or leaves behind "
     "one, no part of such a value is public, and no function hands out write access to its inside.",
     ["inputs", "histories"], "every sequence of calls of the public interface",
     "The guarantee is about all functions together, including ones that change a value in place and ones added later.",
     [V + "object_path.rs", V + "container.rs", V + "interface.rs", V + "bus/mod.rs", R_ + "arg.rs"],
     [("encapsulation", "private fields of the name types, Array, Struct, Arg"), ("constructors", "TryFrom, Array::new, ObjectPath::append")],
     technique="construction and write-access sites over all MIR (ownership analysis); " + AI + " of the constructors")

prop("C27", "Decoding an encoded message gives the message back",
     "The bytes of an encoded message are those the D-Bus wire format prescribes for it, and decoding them (with the collected "
     "descriptors) yields a message with the same body, the same header except that its signature and number of descriptors "
     "describe the body, and consumes exactly all bytes, as long as variants are not nested deeper than the decoder allows.",
     ["inputs"], "every message that can be encoded",
     "Encoder and decoder have to agree on every byte of every nested value at every alignment; tests try small messages.",
     ["src/encode/value/container.rs", D + "value/container.rs", "src/encode/message/message_struct.rs", D + "message/message_struct.rs"],
     [("writers", "Encoder"), ("readers", "Decoder")],
     technique=AI + ": both directions checked against the same declarative layout (composition of C02-C15)")

prop("C02", "Signature text is parsed exactly by the type grammar",
     "Parsing signature text yields the list of complete types it denotes, and fails exactly when the text is longer than 255 "
     "bytes, contains an unknown type code, an array without element type, an empty or unclosed struct, a dictionary entry "
     "without exactly one key and one value, or nests arrays, structs or dictionary entries more than 32 deep. Parsing a "
     "single type also fails when more or less than one complete type is given.",
     ["inputs"], "every byte string",
     "The grammar is recursive and the limits are products of nesting and length; tests parse a few dozen short signatures.",
     [V + "type_enum.rs"], [("parser", "Type::from_bytes_to_type and its public entries")],
     technique=AI + ": recursive-descent step checked against the grammar, the recursion cut by its contract")

prop("C03", "Types are written as their signature and aligned by their kind",
     "Writing a type or a list of types yields exactly the signature text of it, in order, and fails exactly when it nests "
     "deeper than 32 arrays, structs or dictionary entries, is longer than 255 bytes or contains a struct without fields. "
     "Displaying a type yields the same text. Each kind of type has the alignment the wire format gives it.",
     ["inputs"], "every type and list of types, however nested",
     "Types are recursive; tests print a handful of them.",
     [V + "type_enum.rs"], [("writer", "Type::from_signature_to_string"), ("alignment table", "Type::get_alignment")],
     technique=AI + ": structural recursion checked case by case, the recursion cut by its contract")

prop("C06", "Values have the type that mirrors them; containers are well formed",
     "The type of a value has the kind of the value, for arrays the declared element type and for structs, dictionary entries "
     "the types of the members in order; structs or dictionary entries nested deeper than 32 have no type. The signature written for a value is the "
     "text of that type. An array value can only be made when every element has the declared type, a struct only with at least "
     "one field; both give their members back unchanged and in order.",
     ["inputs"], "every value, however nested, and every list of values",
     "Values are recursive and arrays have any length; tests build small homogeneous ones.",
     [V + "value_enum.rs", V + "container.rs"],
     [("type of a value", "Value::from_value_to_type, to_signature_string"), ("constructors", "Array::new, TryFrom<Vec<Value>> for Struct")],
     technique=AI + ": structural recursion checked case by case, loops matched iteration by iteration")

prop("C04", "Bus, interface, member and error names are exactly the D-Bus grammar",
     "A name value (unique name, well-known name, bus name, interface, member, error name) can be built from a text exactly "
     "when the text matches that name's D-Bus grammar and is at most 255 bytes long. The built value holds the given text "
     "unchanged, and a bus name is classed as unique exactly when it starts with a colon.",
     ["inputs"], "every byte string and character string of every length, through every conversion into every name type",
     "The unit tests try a dozen names per type; the grammars are automata over unbounded strings where a wrong state "
     "(digit after dot, leading dash, 256th byte) accepts or rejects only unusual words.",
     [V + "bus/mod.rs", V + "bus/unique_connection_name.rs", V + "bus/well_known_bus_name.rs", V + "interface.rs",
      V + "member.rs", V + "error.rs"],
     [("validators", "TryFrom<&[u8]>/<&str>/<String> for the six name types")],
     technique=AI + ": accepted-language extraction to finite automata, compared with grammar automata")

prop("C05", "Object paths are exactly the D-Bus grammar",
     "An object path value can be built from a text exactly when the text is '/' or a sequence of '/'-prefixed non-empty "
     "elements of [A-Za-z0-9_] without trailing slash, of any length. The built value holds the given text unchanged.",
     ["inputs"], "every byte string and character string of every length",
     "Tests try a handful of paths; the grammar is over unbounded strings.",
     [V + "object_path.rs"], [("validators", "TryFrom<&[u8]>/<&str>/<String> for ObjectPath")],
     technique=AI + ": accepted-language extraction to finite automata, compared with the grammar automaton")

prop("C07", "Fixed-size values are decoded as the wire format says",
     "Decoding a byte, boolean, 16/32/64-bit integer or double skips zero padding to the type's alignment, reads exactly the "
     "type's width in the message's byte order and yields that number. It fails when padding is non-zero, bytes are missing, "
     "or a boolean is neither 0 nor 1, and for no other reason.",
     ["inputs"], "every buffer, start offset, byte order and type",
     "Tests decode a few fixed buffers, almost always aligned and little endian; padding, truncation and byte order "
     "combinations are not sampled.",
     [D + "decoder.rs", D + "value/basic_type.rs", D + "value/value_enum.rs"],
     [("alignment and bounds", "Decoder::algin, next_byte, next_bytes"), ("per-type readers", "Decoder::value dispatch")],
     technique=AI + " against a declarative wire-format specification, path by path")

prop("C08", "Strings, object paths and signatures are decoded strictly",
     "Decoding a string or object path reads an aligned 32-bit length (a signature: one length byte), that many bytes, and a "
     "terminating NUL, and yields exactly those bytes. It fails exactly when bytes are missing, the terminator is not NUL, or "
     "the bytes are not UTF-8, not an object path, or not a list of complete types respectively.",
     ["inputs"], "every buffer, start offset and byte order",
     "The failing inputs (bad UTF-8, missing NUL, truncated text, odd offsets) are combinations the tests sample once each at best.",
     [D + "value/basic_type.rs", D + "value/value_enum.rs"], [("string readers", "Decoder::value for string-like types")],
     technique=AI + " against a declarative wire-format specification, path by path")

prop("C09", "Arrays, structs, dict entries and variants are decoded as the wire format says",
     "Decoding an array, struct, dictionary entry or variant aligns as the format requires, decodes exactly the announced "
     "elements in order with the element types of the signature, and ends exactly where the format says. Arrays beyond 64 MiB, "
     "elements that overrun or underrun the announced length, variants nested deeper than the limit and variant signatures "
     "that are not one complete type are rejected; nothing else is.",
     ["inputs"], "every buffer, offset, byte order, nesting depth and element type",
     "Containers nest without bound; tests cover a few shallow ones and none of the length/limit boundaries.",
     [D + "value/container.rs", D + "value/value_enum.rs"],
     [("container readers", "Decoder::d_array, d_struct, variant"), ("nesting limit", "variant depth")],
     technique=AI + " against a declarative wire-format specification, loops matched iteration by iteration")

prop("C10", "Decoded file descriptors are the ones the index names, and are counted",
     "Decoding a file descriptor value yields the descriptor at the encoded index of the descriptor list that accompanied the "
     "message, and fails when there is no such descriptor. The number of descriptors reported as consumed is one more than the "
     "highest index used.",
     ["inputs", "histories"], "every buffer, index, descriptor list and order of earlier descriptor values",
     "Tests use one message with ascending indexes; repeated, descending and out-of-range indexes are not covered.",
     [D + "value/basic_type.rs", D + "value/value_enum.rs"], [("descriptor lookup", "Decoder::value for UNIX_FD")],
     technique=AI + " against a declarative wire-format specification, path by path")

prop("C13", "Messages are framed, checked and measured as the message format says",
     "Decoding a message succeeds exactly when endianness mark, message type, flags, header fields required by the message "
     "type, signature and body length are consistent, and the padding before the body is zero. It then yields that header, the "
     "body values in order, and the number of bytes and descriptors the message occupies; input after the message or beyond "
     "128 MiB is not looked at.",
     ["inputs"], "every byte sequence and every descriptor list",
     "The tests decode a few captured messages; header and body inconsistencies are combinatorial.",
     [D + "message/header.rs", D + "message/message_struct.rs"],
     [("header reader", "Decoder::message_header"), ("body reader", "Decoder::message_body, Message::decode[_with_fds]")],
     technique=AI + " against a declarative message-format specification, path by path")

E_ = "src/encode/"

prop("C11", "Basic values are encoded as the wire format says",
     "Encoding a basic value (integer, boolean, double, string, object path, signature, file descriptor) appends zero padding "
     "up to the type's alignment and then exactly the bytes the wire format prescribes in the message's byte order, changing "
     "nothing written before. A descriptor is written as its position in the descriptor list: the first equal one, or a new "
     "last one. It fails only when a signature has no valid text.",
     ["inputs", "histories"], "every value, write position, byte order and previously collected descriptor list",
     "Tests encode a few constants at aligned positions, mostly little endian.",
     [E_ + "encoder.rs", E_ + "value/basic_type.rs", E_ + "value/value_enum.rs"],
     [("alignment", "Encoder::algin"), ("per-type writers", "Encoder::value dispatch")],
     technique=AI + " against a declarative wire-format specification, path by path")

prop("C12", "Arrays, structs, dict entries and variants are encoded as the wire format says",
     "Encoding a container appends its alignment padding, the array byte length (not counting the padding before the first "
     "element) or the variant's signature, and the elements' encodings in order. It fails when the array content exceeds "
     "64 MiB, the content of a variant has no type, or an element cannot be encoded.",
     ["inputs"], "every container value, nesting, write position and byte order",
     "Containers nest without bound; length back-patching and padding at odd positions are covered by a few examples only.",
     [E_ + "value/container.rs", E_ + "value/value_enum.rs"],
     [("container writers", "Encoder::array, struct_, dict_entry, variant")],
     technique=AI + " against a declarative wire-format specification, loops matched iteration by iteration")

prop("C14", "Encoded messages announce exactly what they contain",
     "An encoded message consists of the fixed header, the header fields, padding to a multiple of eight and the encodings of "
     "the body values; its body length, signature field and descriptor count describe exactly this body, whatever the header "
     "said before. Encoding fails when the result would exceed 128 MiB, a body value has no signature, or the signature is "
     "longer than 255 bytes.",
     ["inputs", "histories"], "every message value, including ones decoded, changed and encoded again",
     "Tests encode messages right after building them; stale header fields and size limits are not sampled.",
     [E_ + "message/header.rs", E_ + "message/message_struct.rs"],
     [("message writer", "Encoder::message"), ("header writer", "Encoder::message_header")],
     technique=AI + " against a declarative message-format specification, path by path")

M_ = "src/message/"

prop("C15", "Header fields have fixed codes, types and at most one value each",
     "Reading header fields maps each numeric code to its field (1 path, 2 interface, 3 member, 4 error name, 5 reply serial, "
     "6 destination, 7 sender, 8 signature, 9 number of descriptors) and fails exactly when an entry is not a (byte, variant) "
     "struct, the code is unknown or repeated, the value has another type, or a name is malformed. Writing header fields yields "
     "exactly one such entry for each field that is set.",
     ["inputs"], "every list of values given as header fields and every set of header fields",
     "Tests try one failing input per error kind; the combinations (which field, which type, which order, which duplicate) are "
     "not sampled.",
     [M_ + "header/fields.rs"], [("conversion table", "TryFrom<Vec<Value>> for HeaderFields, From<HeaderFields> for Vec<Value>")],
     technique=AI + " against the header field table, the loop matched iteration by iteration")

prop("C16", "Every message has the header fields its type requires",
     "Method calls always have a path and a member, signals a path, an interface and a member, errors an error name and a "
     "reply serial, method returns a reply serial. Constructing a header without them fails, and no public function returns or "
     "leaves behind a message or header that lacks them.",
     ["inputs", "histories"], "every header, message and sequence of calls to the public interface",
     "An invariant over all ways to make or change a message, present and future; tests look at the results of single calls.",
     [M_ + "header/header_struct.rs", M_ + "message_struct.rs", D + "message/header.rs"],
     [("validation", "Header::new"), ("encapsulated state", "fields of Header and Message are private to the crate")],
     technique=AI + ": type-state invariant of headers, checked at the exit of every public function")

prop("C18", "Replies answer the message they were made from",
     "A method return or error made from a message carries that message's serial as reply serial, its sender as destination and "
     "its destination as sender (each absent if absent there), its byte order, protocol version 1, serial 0 and the no-reply "
     "flag, and no other field. A method return has an empty body and is only made from a method call (else an error message is "
     "returned); an error carries exactly its name and one string, which names what is unknown; unknown-path/interface/member "
     "errors exist exactly when the message has that field.",
     ["inputs"], "every message of every type with every combination of header fields",
     "Tests build a handful of replies from fully populated calls.",
     [M_ + "header/header_struct.rs", M_ + "message_struct.rs"],
     [("reply constructors", "method_return, error, unknown_*, invalid_args of Header and Message")],
     technique=AI + " against declarative specifications, path by path")

prop("C19", "Message constructors build exactly the described message",
     "The constructors for method calls, signals and property access return a little-endian message of protocol version 1 with "
     "serial 0, the given header fields and no others, the no-reply flag only on signals, and the body their operation "
     "prescribes (property interface, Get/GetAll/Set, interface and property name, the new value as a variant).",
     ["inputs"], "every argument of every constructor",
     "Tests compare few constructed messages, and not every header field of them.",
     [M_ + "message_struct.rs"], [("constructors", "Message::method_call, signal, property_get, properties_get_all, property_set, new")],
     technique=AI + " against declarative specifications, path by path")

prop("C23", "Accessors report the message as it is, setters change only their part",
     "Each getter of a header or message returns exactly the field it is named after and the matching test reports whether it "
     "is present; the signature of a message is the list of the types of its body values. Setting the serial or adding a body "
     "value changes nothing else, and splitting a message returns its body unchanged and its header with the body's signature.",
     ["inputs", "histories"], "every header, message and sequence of changes",
     "Nine near-identical accessors on two types; tests call each on one message where most fields are set alike.",
     [M_ + "header/header_struct.rs", M_ + "message_struct.rs"], [("accessors", "get_*, has_*, set_serial, add_value, split")],
     technique=AI + " against declarative specifications, path by path")

R_ = "src/match_rule/"

prop("C20", "A match rule matches exactly the messages it describes",
     "A rule on type, sender, interface, member, path or destination matches exactly the messages whose header has that very "
     "value; a path namespace matches the path itself and every path below it; an argument rule matches when the body value at "
     "that index is a string with that very text, an argument path rule when it is a string or object path that equals the "
     "given path or continues it after a slash, an argument namespace rule when the first body value is a string equal to the "
     "namespace or continuing it after a dot. Eavesdrop rules always match. A message matches a list of rules exactly when it "
     "matches every one of them.",
     ["inputs"], "every rule of every kind, every list of rules and every message",
     "Prefix relations between two arbitrary texts, indices against bodies of any length: tests sample a few matching pairs.",
     [R_ + "matching.rs"], [("matching", "MatchRule::matching_rule, matching_rules")],
     technique=AI + " against a declarative meaning of each kind of rule, path by path")

prop("C21", "Match rule text is parsed exactly",
     "Parsing a text of match rules splits it at the commas outside quotes (one trailing comma is allowed), and each rule at its "
     "first equal sign. The key selects the kind of the rule (type, sender, interface, member, path, path_namespace, "
     "destination, eavesdrop, arg0namespace, argN, argNpath with N below 64). In a value, text between apostrophes is taken "
     "literally, a backslash outside of them only escapes an apostrophe; an unclosed quote, an unknown key, a value that is not "
     "valid for the key and a missing or malformed key make the parsing fail. All rules are returned in order. Argument rules "
     "with an index of 64 or more cannot be made.",
     ["inputs"], "every text of every length",
     "Two automata over unbounded texts; tests walk through some of their transitions.",
     [R_ + "decode.rs", R_ + "split.rs", R_ + "unescape.rs", R_ + "arg.rs"],
     [("automata", "next_position, unescape"), ("table of keys", "TryFrom<&str> for MatchRule"), ("list", "MatchRule::decode")],
     technique=AI + ": loops matched with specified automata by bisimulation, paths with the table of keys")

prop("C22", "Match rules are written as text that parses back to them",
     "The text of a rule is its key, an equal sign and the value, where argument texts are quoted such that parsing gives back "
     "exactly the same text: an apostrophe, a comma and a backslash are quoted, every other character is written as it is. A "
     "list of rules is written as their texts in order, separated by commas.",
     ["inputs"], "every rule and every list of rules, with every text as argument",
     "Which texts survive depends on their characters and on their order; tests write a few of them.",
     [R_ + "encode.rs", R_ + "escape.rs", R_ + "arg.rs", R_ + "arg_path.rs"],
     [("writer", "Display of MatchRule, MatchRule::encode"), ("quoting", "escape")],
     technique=AI + ": the loops matched with the specified transducer, paths with the table of keys")

prop("C25", "Operations on object paths are exact and yield object paths",
     "Appending an element to an object path changes it exactly when the element is a non-empty text of letters, digits and "
     "underscores, and then to the path with that element at its end. One path starts with another exactly when it lies "
     "strictly below it, and stripping it then leaves the remaining elements in order, else nothing.",
     ["inputs", "histories"], "every pair of object paths, every text, and every sequence of such operations",
     "Relations between two arbitrary paths (element boundaries, the root); tests compare a few pairs.",
     [V + "object_path.rs"], [("operations", "ObjectPath::append, starts_with, strip_prefix_elements")],
     technique=AI + " against declarative specifications, path by path")

prop("C24", "Names give back and compare by their text; copies and equality cover all parts",
     "A bus name, interface, member, error name or object path gives back exactly the text it was made from (as a reference, as "
     "a String and displayed), and equals a text exactly when that is its text. The default object path is the root. Copies of "
     "headers, messages, values and match rules have all the same parts, and two of them are equal exactly when all parts are.",
     ["inputs"], "every name, every text to compare with, every header, message, value and rule",
     "Comparisons relate two arbitrary texts or values; tests compare few pairs, mostly of equal ones.",
     [V + "interface.rs", V + "bus/mod.rs", V + "object_path.rs", V + "bus/unique_connection_name.rs", M_ + "header/fields.rs"],
     [("conversions", "AsRef<str>, From<_> for String, Display and PartialEq<str> of the names"),
      ("derived operations", "Clone and PartialEq of headers, messages, values and rules")],
     technique=AI + " of the conversions against declarative specifications; query over the impls for derived operations")

prop("C26", "Message types, flags and limits have the codes and values of the specification",
     "Message types convert to and from their codes 1 to 4 and their rule names, and nothing else converts; the flags have the "
     "bits 1, 2 and 4, and a byte is a set of flags exactly when no other bit is set. The public limits have the values of the "
     "specification (names 255 bytes, arrays 64 MiB, messages 128 MiB, rules for arguments 0 to 63).",
     ["inputs"], "every byte, every text, every constant",
     "Tests convert the valid codes and one or two invalid ones.",
     [M_ + "types.rs", M_ + "flags.rs", M_ + "mod.rs"],
     [("codes", "TryFrom<u8>, TryFrom<&str> and Display of MessageType, MessageFlags::from_bits"), ("limits", "public constants")],
     technique=AI + " against tables; query over the evaluated public constants")

prop("C28", "Every public function comes to an end, whatever it is given",
     "No function of the public interface runs forever: each time around a loop gets further in its input or nearer to a fixed "
     "bound, also on malformed, empty or truncated input and after an error, and each function that calls itself does so "
     "on a proper part of its value or nearer to a limit of depth.",
     ["inputs"], "every argument of every public function",
     "A loop that stops moving does so for one kind of input (an element of no length, an error at the end, a lone "
     "separator) that no test tried; and a test that hangs tells nothing.",
     [D + "value/container.rs", D + "value/basic.rs", R_ + "split.rs", R_ + "unescape.rs", V + "type_enum.rs", V + "object_path.rs"],
     [("loops", "every loop in functions reachable from the public interface"),
      ("recursion", "Decoder::value, Encoder::value, Type, Value, signature parser")],
     technique=AI + ": every loop is given a lexicographic ranking measure, every recursive call a smaller argument")

prop("C29", "Memory is only reserved in proportion to what has been received",
     "No function of the public interface reserves memory for a number of bytes or elements that the input only announces: how "
     "much is reserved in advance (capacities, reserves, filled vectors) is at most a constant (65536 elements) more than the "
     "length of a text, list or buffer that is really there. In particular a short message that claims a long array, text or "
     "body, or a rule with a large index, is refused without reserving memory for it.",
     ["inputs"], "every argument of every public function",
     "The damage is done by inputs whose announced length is far larger than their size, and shows as a process killed for "
     "memory, not as a wrong result.",
     [D + "value/container.rs", D + "value/string.rs", D + "decoder.rs", D + "message/message_struct.rs", R_ + "escape.rs", "src/encode/encoder.rs"],
     [("reservations", "every with_capacity, reserve, resize and filled vector in functions reachable from the public interface")],
     technique=AI + ": the amount of every reservation bounded by a length under the facts of its path")

import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
E1='src/mfast/coder/encoder/fast_encoder.cpp'; D1='src/mfast/coder/decoder/fast_decoder.cpp'
p('C01','Runtime codec round-trips every message history',
 'For any set of valid templates and any sequence of valid messages, encoding the messages one after the other with the runtime encoder and decoding the bytes with a runtime decoder that knows the same templates yields, in order, messages equal to the originals. Presence or absence of every optional field, every sequence length and every nested group, sequence or referenced template is preserved.',
 ['inputs','programs','histories'],'all template sets (every field type, operator, presence, nesting), all message histories over them',
 'Tests encode a handful of hand-written templates with one or two messages each; operators are stateful, so correctness depends on the whole history of earlier messages and on the combination type x operator x presence x nesting.',
 [E1,D1,'src/mfast/coder/encoder/encoder_field_operator.cpp','src/mfast/coder/decoder/decoder_field_operator.cpp','src/mfast/coder/common/dictionary_builder.cpp'],
 [('field operators with previous values','src/mfast/coder/encoder/encoder_field_operator.cpp'),('field operators with previous values','src/mfast/coder/decoder/decoder_field_operator.cpp')],
 ['fast_encoder::encode','fast_decoder::decode'],
 [('previous values','last value of every operator key, in encoder and decoder','field instruction prev_value / template_repo reset entries'),('active template id','template of the preceding message','fast_encoder_impl / fast_decoder_impl')])
p('C02','Generated-type codec round-trips every message history',
 'For any template set accepted by the type generator, messages encoded with the type-specialised encoder decode with the type-specialised decoder (whether or not the decoder shares storage with its dictionary) to messages equal to the originals, over arbitrary message histories. The same fields, presences and nesting are preserved as with the runtime codec.',
 ['inputs','programs','histories'],'all generated template sets and message histories, every decoder token count class',
 'Tests cover about twenty fixed templates with single messages; the specialised codec is instantiated per template and has its own operator implementations.',
 ['src/mfast/coder/encoder_v2/fast_encoder_core.h','src/mfast/coder/decoder_v2/fast_decoder_core.h','src/mfast/coder/fast_encoder_v2.h','src/mfast/ext_ref.h','src/fast_type_gen/hpp_gen.cpp'],
 [('compile-time dispatched operators','src/mfast/coder/decoder_v2/fast_decoder_core.h')],['fast_encoder_v2::encode','fast_decoder_v2::decode'])
p('C03','Runtime and generated-type codecs interoperate',
 'For the same templates and message history, bytes produced by the runtime encoder decode with the generated-type decoder to the same messages and vice versa. Either side may be used at either end of a connection without observable difference.',
 ['inputs','programs','histories'],'all generated template sets and histories, both directions',
 'No test connects one implementation to the other over a history; each is tested against its own hand-written byte strings.',
 [E1,D1,'src/mfast/coder/encoder_v2/fast_encoder_core.h','src/mfast/coder/decoder_v2/fast_decoder_core.h'],
 [('shared wire format','src/mfast/coder/encoder/fast_ostream.h')],['fast_encoder','fast_decoder','fast_encoder_v2','fast_decoder_v2'])
p('C04','Encoder output is conforming FAST',
 'Every byte sequence the encoders produce is a valid FAST 1.1 stream for the template: an independent FAST decoder reads back exactly the encoded messages and consumes exactly the encoded bytes. Field operators save the space they promise: the output is never longer than the straightforward operator-by-operator encoding the specification describes.',
 ['inputs','programs','histories'],'all templates and message histories',
 'A round trip cannot see an error shared by both ends; tests compare bytes only for a few dozen fixed cases.',
 [E1,'src/mfast/coder/encoder/encoder_field_operator.cpp','src/mfast/coder/encoder/fast_ostream.h','src/mfast/coder/encoder/encoder_presence_map.h','src/mfast/coder/encoder_v2/fast_encoder_core.h'],
 [('transfer encoding','src/mfast/coder/encoder/fast_ostream.h'),('presence map construction','src/mfast/coder/encoder/encoder_presence_map.h')],['bytes returned by fast_encoder::encode / fast_encoder_v2::encode'])
p('C05','Decoder interprets every conforming FAST stream correctly',
 'For any valid template and any conforming FAST 1.1 stream, including streams from other encoders that make different legal choices (explicit values where an operator could elide, repeated template ids, overlong presence maps, different string prefixes or suffixes in deltas), the decoders return the message the specification prescribes and advance past exactly the bytes of that message.',
 ['inputs','programs','histories'],'all templates and all conforming streams, including non-canonical ones',
 "The repository's encoder never emits most legal alternatives, and tests feed only a few fixed byte strings.",
 [D1,'src/mfast/coder/decoder/decoder_field_operator.cpp','src/mfast/coder/decoder/fast_istream.h','src/mfast/coder/decoder/decoder_presence_map.h','src/mfast/coder/decoder_v2/fast_decoder_core.h'],
 [('presence map reading','src/mfast/coder/decoder/decoder_presence_map.h'),('operator semantics','src/mfast/coder/decoder/decoder_field_operator.cpp')],['message returned by decode','the advanced input pointer'])
p('C06','Decoding arbitrary bytes is memory-safe and fails cleanly',
 'Given any byte buffer, valid, truncated, corrupted or random, a decoder either returns a message or throws an exception; it never reads outside the supplied buffer, never corrupts memory, never hangs and never requests memory out of proportion to the input (for templates whose sequence elements occupy at least one byte each). A valid message in front of the damage is decoded correctly, and after a failure, decoding a valid message with a forced reset works as with a fresh decoder.',
 ['inputs','fault_sequences','histories'],'all byte buffers, all truncation points and mutations, any earlier history',
 'Tests decode only well-formed buffers; the space of malformed input is unbounded.',
 [D1,'src/mfast/coder/decoder/fast_istream.h','src/mfast/coder/decoder/fast_istreambuf.h','src/mfast/coder/decoder/decoder_presence_map.h','src/mfast/coder/decoder_v2/fast_decoder_core.h'],
 [('bounded input buffer','src/mfast/coder/decoder/fast_istreambuf.h')],['fast_decoder::decode','fast_decoder_v2::decode'])
p('C07','Protocol errors are reported, not decoded into wrong values',
 'A message that the FAST specification declares to be in error is rejected with an error by the decoders rather than returned as a normal message: an unknown template id, a mandatory copy, increment or tail field whose value is omitted when no value is available, a delta or tail base of the wrong state, a string delta removing more characters than the base has, an integer outside the range of its field type, and a stream that ends in the middle of a message.',
 ['inputs','programs','histories'],'all templates, all histories leading to an error state',
 'Tests cover a couple of error codes for a single field; whether an error is raised depends on dictionary state produced by the whole history.',
 ['src/mfast/coder/decoder/decoder_field_operator.cpp',D1,'src/mfast/coder/decoder_v2/fast_decoder_core.h','src/mfast/coder/common/codec_helper.h'],
 [('dynamic error codes','src/mfast/coder/common/exceptions.h')],['exceptions thrown by decode'])
p('C08','Reset re-synchronises encoder and decoder',
 'After a forced reset on encode, or a message whose template carries the reset attribute, the encoded message and all later ones decode correctly with a decoder that has seen none of the earlier messages, provided it is reset the same way or is fresh. Resetting restores every operator to its initial state and leaves no influence of earlier messages on the bytes produced or the values decoded.',
 ['histories','inputs','programs'],'all histories before the reset point, all templates',
 'Tests reset after a single message; leakage depends on which previous values the history has populated.',
 ['src/mfast/coder/common/template_repo.h',E1,D1,'src/mfast/coder/common/dictionary_builder.cpp'],
 [('dictionary reset list','src/mfast/coder/common/template_repo.h')],['encode(..., force_reset)','decode(..., force_reset)','reset / scp:reset template attribute'])
p('C09','Operators share previous values exactly per dictionary and key',
 'Two operator fields use the same previous value if and only if their dictionary (global, template, user-named, inherited from enclosing elements), namespace and key are the same; writing one then affects the other and no unrelated field. This holds across templates, groups and sequence elements, and sharing a key between fields of different types is rejected.',
 ['programs','histories'],'all assignments of dictionary and key attributes to fields of templates, all message histories',
 'Tests check one or two fixed sharing patterns; the effect is visible only in later messages of other templates.',
 ['src/mfast/coder/common/dictionary_builder.cpp','src/mfast/xml_parser/field_op.cpp','src/mfast/coder/encoder/encoder_field_operator.cpp','src/mfast/coder/decoder/decoder_field_operator.cpp'],
 [('qualified key index','src/mfast/coder/common/dictionary_builder.cpp')],['encoded bytes and decoded messages of later messages','error on type mismatch'])
p('C10','Encoding respects its output buffer',
 'Encoding into a caller-supplied buffer writes only inside it, returns the encoded length whenever the message fits, including an exact fit (under the default setting, where presence maps need not be shortened afterwards), and throws otherwise. Encoding into a growable vector appends the same bytes after the existing content and leaves that content untouched.',
 ['inputs','configurations'],'all messages and every buffer size from too small to larger than needed, any prior vector content',
 'Tests use one generously sized buffer; failures need an exact boundary between buffer size and field layout.',
 ['src/mfast/coder/encoder/fast_ostreambuf.h','src/mfast/coder/encoder/resizable_fast_ostreambuf.h','src/mfast/coder/encoder/encoder_presence_map.h',E1],
 [('overflow checks','src/mfast/coder/encoder/fast_ostreambuf.h'),('growth','src/mfast/coder/encoder/resizable_fast_ostreambuf.h')],['return value, exception and bytes of encode'])
p('C11','Scalar transfer encodings are exact and minimal',
 'For every value of every integer type, nullable or not, and for every representable string, decimal and byte vector, the stream writer emits the shortest stop-bit encoding defined by FAST and the stream reader returns the same value and null status and consumes exactly those bytes. An encoded integer that does not fit the field type is never silently delivered as a different value.',
 ['inputs'],'all 32- and 64-bit integer values around every encoding-length boundary and null boundary, all strings and byte vectors, decimals',
 'Tests check fewer than fifty constants; errors hide at length and null boundaries.',
 ['src/mfast/coder/encoder/fast_ostream.h','src/mfast/coder/decoder/fast_istream.h'],
 [('stop-bit integer codec','src/mfast/coder/decoder/fast_istream.h'),('stop-bit integer codec','src/mfast/coder/encoder/fast_ostream.h')],['fast_ostream::encode','fast_istream::decode'])
p('C12','Presence maps of any size keep every bit',
 'A presence map written with any number of bits and any pattern, with or without overlong maps allowed, and read back yields the same bits in the same order, with all bits beyond the transmitted ones read as unset. It occupies the minimal number of bytes when overlong maps are not allowed, and bytes written after it are unaffected by its final size.',
 ['inputs','configurations'],'all bit strings from empty to several hundred bits, both overlong settings, arbitrary following bytes',
 'Tests use maps of a few bits, whereas correctness changes at multiples of 7 bits and at the machine-word boundary.',
 ['src/mfast/coder/encoder/encoder_presence_map.h','src/mfast/coder/decoder/decoder_presence_map.h','src/mfast/coder/encoder/fast_ostream.h'],
 [('multi-word map and shrinking','src/mfast/coder/encoder/encoder_presence_map.h')],['bytes of encoded messages with many optional fields','message contents after decoding'])
p('C13','Messages are independent values and equality means equal content',
 'Copying a message, group, sequence or field yields an equal value that is independent: any later change to either one never shows in the other, and destroying one never invalidates the other. Two messages of a template compare equal exactly when every field has the same presence and the same value, recursively, and equality is reflexive, symmetric and transitive; no memory is leaked or released twice.',
 ['histories','inputs','programs'],'all sequences of create, set, omit, copy, assign, move, resize and destroy operations over several messages',
 'Tests copy one or two fixed messages; aliasing shows only in particular mutation orders.',
 ['src/mfast/composite_type.h','src/mfast/aggregate_ref.h','src/mfast/field_comparator.h','src/mfast/sequence_ref.h','src/mfast/instructions/group_instruction.cpp','src/mfast/instructions/sequence_instruction.cpp','src/mfast/instructions/templateref_instruction.cpp'],
 [('deep copy construction','src/mfast/instructions/group_instruction.cpp'),('field comparator','src/mfast/field_comparator.h')],['message_type and field references'])
p('C14','String, byte-vector and integer-vector fields behave as containers',
 'String, byte-vector and integer-vector fields obey the contracts of the standard string and vector operations they expose (assign, append, push, insert, erase, replace, resize, reserve, clear, element access, iteration and comparison) for any sequence of operations: their content always equals that of the corresponding standard container. Values are kept intact across capacity growth, and omitting an optional field is distinct from emptying it.',
 ['histories','inputs'],'all operation sequences and contents, including embedded zero bytes and empty values',
 'Tests make a few fixed calls on short strings; growth, shifting and aliasing errors need longer histories.',
 ['src/mfast/vector_ref.h','src/mfast/string_ref.h'],[('capacity management and shifting','src/mfast/vector_ref.h')],['make_mref<...> string / vector references'])
p('C15','Sequences keep their elements through resizing',
 'Growing, shrinking, reserving, clearing, omitting and re-populating a sequence field preserves every element that remains within its length, for any order of operations and any nesting; an element that was never part of the sequence before appears with the initial values of its template (what an element that was cut off and comes back holds is left open). Copies, assignments and swaps of sequences carry all elements; iteration in either direction, iterator arithmetic and indexing visit exactly the elements in order.',
 ['histories','programs'],'all operation sequences on sequences of any element type, including nested sequences',
 'Tests resize a sequence once; stale or lost elements show only after shrink-then-grow or reallocation histories.',
 ['src/mfast/sequence_ref.h','src/mfast/sequence_type.h','src/mfast/instructions/sequence_instruction.cpp'],[('element construction on resize','src/mfast/sequence_ref.h')],['sequence_mref and sequence_type'])
p('C16','Allocators hand out disjoint memory until reset',
 'Every block returned by the arena and heap allocators is at least as large as requested, suitably aligned and disjoint from every other live block, and reallocation preserves the old content. Resetting the arena makes its memory reusable for new blocks without affecting their disjointness, so that repeating the same work with a reset in between does not take more and more memory. Encoders, decoders and messages give back every block they take from their allocator exactly once, with its size.',
 ['histories','inputs'],'all sequences of allocate, reallocate, deallocate and reset with all sizes',
 'The existing test performs one fixed sequence; overlap requires particular size sequences and chunk reuse after reset.',
 ['src/mfast/arena_allocator.cpp','src/mfast/arena_allocator.h','src/mfast/malloc_allocator.cpp'],[('chunk lists','src/mfast/arena_allocator.cpp')],['allocate / reallocate / reset'])
p('C17','Template definitions are interpreted exactly as written',
 'Loading an XML template definition yields, for every template and field, exactly the name, id, namespace, type, presence, operator, initial value, dictionary and key written there (with FAST defaults and inheritance), in document order, including type definitions, enumerations, sequence lengths and template references. Ill-formed documents, references to unknown types or templates, values which are not of the type of their field, invalid ids and invalid enumerations are refused with an exception; no document crashes the loader or reads outside its memory.',
 ['programs','inputs'],'all template definitions, valid and invalid',
 'Tests load about twenty-five fixed files; attribute combinations and nesting are unbounded.',
 ['src/mfast/xml_parser/field_builder.cpp','src/mfast/xml_parser/field_op.cpp','src/mfast/xml_parser/templates_builder.cpp','src/mfast/xml_parser/fast_xml_attributes.h'],
 [('XML visitor building instructions','src/mfast/xml_parser/field_builder.cpp')],['dynamic_templates_description'])
p('C18','Generated types mirror the template definition',
 'For every template definition whose names stay distinct as C++ identifiers, the type generator produces code that compiles, and its description is identical, field by field, to what loading the same definition at run time gives. Every generated accessor reads and writes exactly the field it is named after, and initial and constant values agree.',
 ['programs'],'all template definitions in the supported language',
 'Tests compile a fixed set of definitions and use only some of the accessors.',
 ['src/fast_type_gen/cpp_gen.cpp','src/fast_type_gen/hpp_gen.cpp','src/fast_type_gen/inl_gen.cpp','src/fast_type_gen/codegen_base.cpp'],
 [('code generators','src/fast_type_gen/inl_gen.cpp')],['templates_description::instance() and generated reference classes'])
p('C19','JSON output is valid and reproduces the message',
 'Encoding any message to JSON yields syntactically valid JSON containing exactly the present fields with their values, and, for templates without dynamic template references (which JSON input does not support), decoding that JSON into a new message of the same template yields an equal message. Strings with any characters, extreme numbers, decimals, byte vectors, enumerations and nested structures are all preserved.',
 ['inputs','programs'],'all templates and messages, all string contents',
 'Tests convert three fixed messages.',
 ['src/mfast/json/json_encode.cpp','src/mfast/json/json_decode.cpp'],[('string escaping','src/mfast/json/json_encode.cpp'),('JSON parser','src/mfast/json/json_decode.cpp')],['json::encode','json::decode'])
p('C20','JSON input is parsed faithfully or rejected safely',
 'Decoding any valid JSON object assigns the fields it names regardless of key order, whitespace, escape style or additional unknown members; optional fields that are not named (or null) become absent and mandatory ones keep their value. A text that is cut short, or that gives a field a value it cannot hold, is rejected with an exception, and no text at all is read out of bounds, crashes or hangs.',
 ['inputs'],'all valid JSON renderings of a message, all malformed texts',
 'Tests parse a few fixed documents in the form the encoder writes them.',
 ['src/mfast/json/json_decode.cpp'],[('recursive JSON parser','src/mfast/json/json_decode.cpp')],['json::decode'])
p('C21','Decimal fields keep exact values',
 'Reading a decimal from text, assigning mantissa and exponent, printing, normalising and copying all denote the same exact number: text round-trips through print and parse, a text whose digits do not fit is refused, normalisation changes representation but not value, and conversion to floating point or to and from other decimal types (of at most 18 digits) is numerically correct. A constant exponent is kept. Two decimals are equal exactly when mantissa and exponent are; two normalised ones exactly when the numbers are. Sign, leading zeros in the fraction and large exponents are preserved.',
 ['inputs'],'all mantissa/exponent pairs and decimal texts within range',
 'Tests check a handful of constants.',
 ['src/mfast/decimal_ref.h','src/mfast/value_storage.h','src/mfast/instructions/decimal_instruction.cpp'],[('decimal parsing and printing','src/mfast/value_storage.cpp')],['decimal_mref / decimal_value_storage streaming'])
p('C22','Views enumerate the referenced leaves',
 'Iterating an aggregate view visits, for each view field in order, the first of its alternative paths whose leaf is present, and otherwise an absent leaf, for any message content. Values read through the view equal those read directly. Views that refer to nothing are refused.',
 ['inputs','programs'],'all view definitions and all message contents, including absent groups and short sequences',
 'The test checks one view over one message.',
 ['src/mfast/view_iterator.cpp','src/mfast/view_iterator.h','src/mfast/xml_parser/view_info_builder.cpp'],[('path compression between successive fields','src/mfast/xml_parser/view_info_builder.cpp')],['aggregate_cview iteration'])
p('C23','Relational export stores exactly the message content',
 'Inserting messages of a template into the SQLite converter adds to the table of the template one row per message, or one per element of its sequence, whose columns hold the exact field values and NULL for absent fields. Groups and elements that are templates are stored in rows of their own table, linked by primary key or rowid. No value is lost, truncated or attributed to another column or to another message, a message whose primary key is taken is refused without harm to later ones, and what was inserted is in the file after the converter is gone.',
 ['inputs','programs','histories'],'templates of scalar fields, plain groups, template groups and at most one sequence whose names are SQL names; all histories of their messages',
 'No test exercises the converter.',
 ['src/mfast/sqlite3/converter_core.cpp','src/mfast/sqlite3/tables_creator.cpp','src/mfast/sqlite3/first_pass_visitor.cpp'],[('column binding','src/mfast/sqlite3/converter_core.cpp')],['SQLite3::converter and the resulting database'])
p('C24','Enumeration, boolean and set fields map names and values both ways',
 'For every enumeration, boolean and set definition, the value-to-name and name-to-value mappings are inverse and follow the definition, explicit element values included, and setting, testing and clearing members of a set affects exactly those members. These values survive encoding and decoding for every element.',
 ['inputs','programs','configurations'],'all element lists with and without explicit values, with the optional set extension enabled or not',
 'Tests use a three-element enumeration and a fixed set.',
 ['src/mfast/enum_ref.h','src/mfast/set_ref.h','src/mfast/boolean_ref.h','src/mfast/instructions/enum_instruction.h','src/mfast/instructions/set_instruction.h','src/mfast/xml_parser/field_builder.cpp'],[('element tables','src/mfast/instructions/enum_instruction.cpp')],['enum_mref::as, value_name, set_mref operations'])
p('C25','Dynamically referenced templates nest correctly',
 'A field that refers to a template chosen at run time carries any message of any known template, at any depth, inside groups and sequences: it encodes, decodes, copies and compares like that message. Encoding or decoding such a nested message does not disturb the fields that follow it nor the template in force for later messages.',
 ['inputs','programs','histories'],'all nestings of template references and bound templates, all histories mixing templates',
 'Tests cover one nested template in one position.',
 ['src/mfast/nested_message_ref.h','src/mfast/instructions/templateref_instruction.cpp',E1,D1],[('segment stack','src/mfast/coder/decoder/fast_decoder.cpp')],['nested_message_mref, encode, decode'])
p('C26','Fields are found, iterated over, visited, converted and printed as they are',
 'For any template and any message, looking a field up by id or name finds the first field that has it and nothing otherwise; iterators and operator[] go through the fields of a message, group or element in their order; a visitor is called once for each field with the reference of its type and the field itself, and its result is returned; dynamic_cast_as succeeds exactly for the types of the field; values stored through visitors or converted from values of other types are those that are read afterwards, and conversions that make no sense are refused without a change; and fields are printed as their values without lasting effects on the stream.',
 ['inputs','programs'],'all templates, messages, ids, names, and all values a field can be converted from that it can represent',
 'Tests look up single fields of one message and visit a few types.',
 ['src/mfast/aggregate_ref.h','src/mfast/group_ref.h','src/mfast/field_visitor.h','src/mfast/field_mref.h','src/mfast/field_ref.h','src/mfast/output.h','src/mfast/instructions/group_instruction.cpp'],[('dispatch of visitors','src/mfast/field_visitor.h')],['aggregate_cref, apply_accessor, apply_mutator, field_mref::as'])
import os
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))

def add(prop, NA, BASE, C):
    S = 'src/mfast/'
    ENC = [C + 'encoder/fast_encoder.cpp', C + 'encoder_v2/fast_encoder_core.h', C + 'encoder_v2/fast_encoder_core.cpp', C + 'encoder/encoder_presence_map.h', S + 'ext_ref.h', S + 'sequence_ref.h']
    DEC = [C + 'decoder/fast_decoder.cpp', C + 'decoder_v2/fast_decoder_core.h', C + 'decoder/decoder_presence_map.h', S + 'nested_message_ref.h', S + 'instructions/templateref_instruction.cpp', S + 'instructions/sequence_instruction.cpp', S + 'instructions/group_instruction.cpp']
    DB = [C + 'common/dictionary_builder.cpp', C + 'common/template_repo.h']
    DICT = [{'name': 'dictionary', 'meaning': 'previous value per (dictionary, key)', 'where': C + 'common/dictionary_builder.cpp'}, {'name': 'active template', 'meaning': 'template used when a segment omits its identifier', 'where': 'active_message_id_, active_message_, active_message_info_'}]
    prop('P08', 'Structured messages survive encoding, over any history',
         'A sequence of messages with groups, sequences (under every length operator), integer vectors, static and dynamic template references, any of them optional and nested in each other, including templates that carry scp:reset, encoded by either encoder, decodes both by the FAST 1.1 specification and by the matching mFAST decoder to exactly the messages written, element by element and present or absent as written, and exactly the bytes produced are consumed. Both encoders produce the same bytes.',
         ['inputs', 'histories', 'configurations'], 'for all messages, histories and nestings of the structural constructs', 'Structure, dictionary state and presence maps interact; each test fixes one message.',
         ENC + DEC + DB, [('segments, groups, sequences', C + 'encoder/fast_encoder.cpp visit()'), ('v2', C + 'encoder_v2/fast_encoder_core.h'), ('generated accept()', 'src/fast_type_gen/inl_gen.cpp')], BASE + 'Oracle: reference message decoder over an independent description of the templates (harness/tree.h, templates/tree.py).', DICT)
    prop('P09', 'Structured messages decode as FAST 1.1 prescribes, from any bytes',
         'For any byte string offered as a stream of messages of templates with groups, sequences, integer vectors and static or dynamic template references, each decoder either yields exactly the message the FAST 1.1 specification prescribes from the bytes and the dictionary state and consumes exactly those bytes, or raises an exception where the specification calls for an error (truncated input, unknown template identifier, dynamic errors). No input makes it read or write outside its buffers, allocate more than the input can account for, crash or fail an assertion. Integers beyond the range of their type (a listed finding) and reportable errors are outside.',
         ['inputs', 'histories', 'configurations'], 'for all byte strings and decoder states', 'Hostile lengths, presence maps, template identifiers and truncations are unbounded in number.',
         DEC + DB + [C + 'common/codec_helper.h'], [('v1', C + 'decoder/fast_decoder.cpp'), ('v2', C + 'decoder_v2/fast_decoder_core.h'), ('element storage', S + 'sequence_ref.cpp')], BASE + 'Oracle: the reference message decoder of harness/tree.h.', DICT)
    prop('P10', 'Fields share previous values exactly as dictionaries and keys say',
         'Two fields use the same previous value if and only if they name the same key, by name and namespace, in the same dictionary (global, template, type or user defined; both inherited from the closest enclosing sequence, group or template unless given closer), in both encoders and decoders; a field whose operator does not use previous values leaves them alone; a reset (requested by the caller or by scp:reset of the template) makes all of them undefined and nothing else does. Hence any sequence of messages of templates sharing dictionaries, encoded by either encoder, decodes by the specification and by mFAST to the messages written. Encoding may raise error D6 only for a delta, or a mandatory copy or increment field, whose entry is empty.',
         ['inputs', 'histories', 'configurations'], 'for all sequences of messages of templates that share dictionary entries, and all values', 'Sharing shows only for particular pairs of templates and value histories.',
         DB + ENC[:2] + DEC[:2], [('key resolution', C + 'common/dictionary_builder.cpp get_dictionary_storage()'), ('reset', C + 'common/template_repo.h reset_dictionary()')], BASE + 'Oracle: reference decoder with keys numbered by templates/tree.py from the scoping rules of FAST 1.1 section 6.3.1.', DICT)
    prop('P11', 'Both decoders agree on structured messages from any bytes',
         'Given the same byte string and the same history over templates with groups, sequences, integer vectors, dynamic template references and shared dictionaries, the table-driven (v1) and the template-based (v2) decoder either both accept it with equal messages and the same number of bytes consumed, or both reject it with an exception.',
         ['inputs', 'histories', 'configurations'], 'for all byte strings and histories', 'No test compares the decoders on such input.',
         DEC + DB, [('v1', C + 'decoder/fast_decoder.cpp'), ('v2', C + 'decoder_v2/fast_decoder_core.h')], BASE + 'Relational check of two implementations on the same symbolic bytes.', DICT)
    prop('P12', 'Presence maps of every size carry exactly the bits they should',
         'Whatever the number of fields that occupy presence bits (around and beyond the byte boundaries and the 64-bit words of the implementation), at top level, in groups and in sequence elements, and whether overlong maps are allowed or trimmed, either encoder writes a presence map in which every field finds its bit (by the specification and by the mFAST decoders) and nothing before or after the map is disturbed; a decimal whose exponent and mantissa have individual operators takes up to two bits, and leaves the second out when absent. Either decoder reads maps that are shorter or longer than the fields need, bits beyond the end being 0. No map makes them touch memory outside the message buffer.',
         ['inputs', 'histories', 'configurations'], 'for all numbers of presence bits, all patterns and both overlong settings', 'Templates in the tests have few fields; the word boundaries of the implementation at 56 and 63 bits, trimming and unused bits only matter in particular patterns.',
         [C + 'encoder/encoder_presence_map.h', C + 'encoder/fast_ostreambuf.cpp', C + 'encoder/fast_ostream.h', C + 'decoder/decoder_presence_map.h', C + 'decoder/fast_istream.h', S + 'instructions/group_instruction.cpp', S + 'instructions/decimal_instruction.cpp', S + 'ext_ref.h'], [('writing', C + 'encoder/encoder_presence_map.h set_next_bit(), commit()'), ('trimming', C + 'encoder/fast_ostreambuf.cpp write_bytes_at()'), ('reading', C + 'decoder/decoder_presence_map.h is_next_bit_set()')], BASE + 'Oracle: the reference message decoder of harness/tree.h; patterns of bits are restricted as stated in the bounds.')
    VEC = [S + 'vector_ref.h', S + 'string_ref.h', S + 'array_view.h', S + 'value_storage.h', S + 'malloc_allocator.h', S + 'arena_allocator.h', S + 'int_ref.h']
    prop('P13', 'String and vector fields behave as sequences of elements',
         'Whatever state a string, byte vector or integer vector field is in (absent, owning its content, referring to borrowed content, cut down) and whichever allocator it uses, any sequence of modifications (assignment, resizing, reserving, inserting, appending, replacing, erasing, copying, swapping, borrowing, omitting, restoring the initial value) leaves it present with exactly the elements a plain sequence would have, or absent; comparison operators order such values lexicographically. Borrowed content is never written to, no element outside the allocated storage is touched, and allocators are always told the true size of the block they gave out.',
         ['inputs', 'histories', 'configurations'], 'for all contents, sizes, positions, operation sequences and allocators', 'Growth, borrowing and allocator hand-out sizes interact; the tests call each operation once on one state.',
         VEC, [('modification', S + 'vector_ref.h vector_mref_base'), ('storage', S + 'malloc_allocator.h, arena_allocator.h'), ('strings', S + 'string_ref.h')], BASE + 'Oracle: an array model of the operations (harness/h_vec.cpp), checking allocators.')
    prop('P14', 'Encoders respect their output buffer and survive failed messages',
         'A message is encoded into a fixed buffer if and only if it fits, nothing outside the buffer is written, and an encoding appended to a growing buffer has the same bytes and leaves the earlier content alone. When a message cannot be encoded (too small a buffer, unknown template) an exception is raised, the growing buffer keeps its content, and the messages that follow after a reset are encoded exactly as by a new encoder.',
         ['inputs', 'histories', 'fault_sequences'], 'for all messages, buffer sizes, earlier contents and failures', 'Tests use buffers that are large enough.',
         ENC[:3] + [C + 'encoder/fast_ostreambuf.cpp', C + 'encoder/fast_ostreambuf.h', C + 'encoder/resizable_fast_ostreambuf.h', C + 'encoder/fast_ostream.h'], [('fixed buffers', C + 'encoder/fast_ostreambuf.cpp'), ('growing buffers', C + 'encoder/resizable_fast_ostreambuf.h'), ('template identifiers', C + 'encoder/fast_encoder.cpp, encoder_v2/fast_encoder_core.h')], BASE + 'Oracle: a second encoder of the same kind that never failed, with a buffer of ample size.')
    prop('P15', 'A decoder that failed works like a new one after a reset',
         'Whatever bytes a decoder was given before, whether it accepted them or raised an exception half way through a message, the messages it is given next, the first of them with a reset of the dictionary, are decoded exactly as a newly constructed decoder decodes them: the same messages, the same bytes consumed, the same errors.',
         ['inputs', 'histories', 'fault_sequences'], 'for all byte strings before and after the reset and all templates', 'What remains of an abandoned message depends on where it was abandoned; no test goes on after an error.',
         DEC + DB, [('v1', C + 'decoder/fast_decoder.cpp'), ('v2', C + 'decoder_v2/fast_decoder_core.h')], BASE + 'Relational check of a used and a new decoder on the same symbolic bytes.', DICT)
    prop('P16', 'Everything allocated for messages is freed, whatever happens',
         'Encoding, decoding and copying messages, whether they succeed or end in an exception, and destroying messages, encoders and decoders afterwards, frees every block of memory exactly once and uses none after it was freed.',
         ['inputs', 'histories', 'fault_sequences'], 'for all byte strings and messages, success or failure', 'Tests run without leak detection and hardly ever fail half way.',
         ENC[:3] + DEC + DB + VEC[:4], [('construction and destruction', S + 'instructions/*.cpp construct_value(), destruct_value()'), ('message storage', S + 'message_ref.h, aggregate_ref.h'), ('decoder resources', C + 'decoder/fast_decoder.cpp, decoder_v2/fast_decoder_core.h')], BASE + 'The executor tracks every allocation; none made by the code may remain at the end of a path.', DICT)
    prop('P17', 'Messages and sequences are values',
         'Two messages of a template compare equal if and only if every field, group and sequence element in them is equal or absent in both. However a message is copied, assigned, moved or stored in a container, the copy has the contents of the original, which stays as it was, and changing or destroying one has no effect on the other. A sequence behaves as an array of such elements under any series of its operations.',
         ['inputs', 'histories', 'configurations'], 'for all messages, ways of copying, allocators and operation sequences', 'Aliasing, stale storage and absent parts show only for particular contents followed by a change; tests copy one message.',
         [S + 'field_comparator.h', S + 'composite_type.h', S + 'aggregate_ref.h', S + 'sequence_ref.h', S + 'sequence_type.h', S + 'message_ref.h', S + 'nested_message_ref.h', S + 'group_ref.h', S + 'arena_allocator.h', S + 'instructions/group_instruction.cpp', S + 'instructions/sequence_instruction.cpp', S + 'instructions/templateref_instruction.cpp', S + 'instructions/vector_instruction_base.cpp', S + 'instructions/decimal_instruction.cpp'], [('equality', S + 'field_comparator.h'), ('copying', S + 'composite_type.h message_base, instructions/*.cpp copy_construct_value()'), ('sequences', S + 'sequence_ref.h sequence_mref_helper, make_sequence_mref')], BASE + 'Oracle: the independent record of what was written (harness/tree.h) and an array model of sequences (harness/h_tree.h).')
    JS = [S + 'json/json_encode.cpp', S + 'json/json_decode.cpp', S + 'json/json.h', S + 'value_storage.cpp', S + 'vector_ref.h', S + 'sequence_ref.h', S + 'instructions/byte_vector_instruction.cpp']
    JM = BASE + 'The iostream templates of libstdc++ are executed; their compiled parts (locales, number formatting and parsing, character extraction) are modelled after the standard (harness/models_io.cpp), counterexamples are replayed with the real ones. '
    prop('P18', 'Messages survive the way through JSON',
         'Encoding a message or a sequence as JSON yields text that is a JSON value by ECMA-404 with a member for every present field and no other (fields with an ignored tag left out), whose values are those of the fields: numbers, strings with the required escapes, byte vectors as two hexadecimal digits per byte or, where a tag says they hold JSON, as that text itself. Decoding the text gives a message equal to the original (decimals by value), whatever the message decoded into contained; an array that ends early is rejected.',
         ['inputs', 'configurations'], 'for all messages, tag masks and previous contents of the destination', 'Escapes, signs, digits at the limits of the types, empty and absent parts come in combinations; the tests compare a handful of texts.',
         JS, [('writing', S + 'json/json_encode.cpp json_visitor'), ('reading', S + 'json/json_decode.cpp decode_visitor'), ('decimals', S + 'value_storage.cpp operator<<, operator>>')], JM + 'Oracle: a strict JSON reader over the independent description of the templates (harness/h_json.cpp).')
    prop('P19', 'JSON is read by its grammar, and no text breaks the reader',
         'Any JSON text with an object for the message is accepted and gives the values it states: with whitespace anywhere, members in any order, members unknown to the message (of any kind) skipped, null for absent, escapes including surrogate pairs; what follows the object is left in the stream. A value of the wrong type or beyond the range of its field and text that ends early are rejected by an exception. No text whatsoever makes the reader touch memory it should not, crash or hang, and the message can be read afterwards.',
         ['inputs'], 'for all texts', 'Texts are unbounded in variety; tests give well-formed ones.',
         JS, [('values', S + 'json/json_decode.cpp decode_visitor'), ('strings', S + 'json/json_decode.cpp get_quoted_string()'), ('unknown members', S + 'json/json_decode.cpp skip_value()')], JM + 'Oracle: a reader of the JSON grammar (harness/h_json.cpp JT).')

NA_DYN = ('Not yet under contract: the dynamic message is reached only through a message_factory, a pointer graph of '
          'descriptors built at run time from a decoded FileDescriptorSet; a contract needs that whole graph as a '
          'precondition, and the generator has no way to state it short of executing the factory on one fixed schema.')
NA_POOL = ('The postcondition quantifies over all descriptor sets, that is over a recursive data structure with hash '
           'maps keyed by symbolic names; the memory model here decides flat buffers and objects of a fixed shape, not '
           'inductive predicates over such graphs.')
NA_GRPC = ('The code is a thin layer over grpc::ByteBuffer and grpc_slice, whose bodies live in the prebuilt gRPC '
           'library; every step of the argument would rest on an assumed contract of that library.')
J = I + 'json/'
p('P19', 'Base64 coding is an exact inverse pair',
  'Encoding any bytes yields canonical padded base64 of exactly the predicted length, decoding it returns the same '
  'bytes, and decoding rejects every text that is not base64 (foreign characters, misplaced padding, impossible '
  'lengths) instead of returning garbage.',
  ['inputs'], 'all byte strings and all texts', 'tests use a few literals', [J + 'base64.hpp'], [('base64::encode/decode', J + 'base64.hpp')])
p('P20', 'Timestamps and durations convert to text and back exactly',
  'Every timestamp and duration in the protobuf range formats to the canonical text of the same instant and parses '
  'back to the same seconds and nanoseconds, out-of-range values are refused, and text that is not in the format is '
  'rejected.',
  ['inputs'], 'all second/nanosecond pairs and all texts', 'calendar arithmetic over 10^4 years and 10^9 nanos',
  [J + 'timestamp_codec.hpp', J + 'duration_codec.hpp'], [('timestamp_codec, duration_codec', J + 'timestamp_codec.hpp')])
p('P21', 'flat_map is a sorted unique-key map',
  'After any sequence of operations (construction from unsorted pairs, insert, insert_or_assign, try_emplace, '
  'operator[], erase, extract/replace, lookup) hpp_proto::flat_map holds exactly the key/value pairs an abstract map '
  'would hold (construction from pairs with equal keys keeps one of them), with keys strictly increasing, equal numbers of keys and values, and every key associated with its own '
  'value; lookups answer for exactly the keys present.',
  ['inputs', 'histories'], 'all operation sequences, keys and values',
  'the key/value arrays are separate, so a wrong index pairs a key with another key\'s value only for some orders',
  [I + 'flat_map.hpp'], [('flat_map', I + 'flat_map.hpp')], ['sorted keys container', 'values container'])
p('P22', 'optional, indirect and optional_indirect behave as values',
  'Copying gives an independent equal object, moving transfers the value, assignment (including self-assignment and '
  'assignment across set/unset states) leaves the target equal to the source\'s former value, reset leaves it unset, '
  'nothing is leaked, freed twice or read after free, and has_value/operator bool/equality answer accordingly.',
  ['inputs', 'histories'], 'all operation sequences and values',
  'tests run each operation once from one state',
  [I + 'field_types.hpp', I + 'indirect.hpp', I + 'optional_indirect.hpp'],
  [('optional', I + 'field_types.hpp'), ('indirect', I + 'indirect.hpp'), ('optional_indirect', I + 'optional_indirect.hpp')])
p('P23', 'Decoding into view types equals decoding into owning types',
  'With non-owning traits and a memory resource, decoding gives the same status, the same field values (strings, '
  'bytes, repeated fields, nested messages, unknown fields) and the same re-encoding as decoding the same bytes into '
  'owning containers, and all referenced storage lies in the input buffer or the memory resource.',
  ['inputs', 'configurations'], 'all inputs',
  'growth and reuse of arena storage depends on the input structure; tests decode a few valid messages',
  [B + 'deserialize.hpp', I + 'memory_resource_utils.hpp'], [('arena_vector', I + 'memory_resource_utils.hpp')])
p('P24', 'Padded input decodes exactly like ordinary input',
  'When the documented precondition holds (16 readable bytes after the payload, the first zero), decoding with '
  'padded_input gives the same status and message as without it whatever the other padding bytes are, and never '
  'reads beyond the padding.',
  ['inputs', 'configurations'], 'all payloads, valid or not, and all padding contents',
  'boundary checks are deliberately skipped in this mode; a missing one shows only for truncated input',
  [B + 'deserialize.hpp'], [('is_padded_input_context paths', B + 'deserialize.hpp')])
p('P25', 'Extensions are stored, read and replaced faithfully',
  'A set extension is read back equal and is written with the message in the wire format of an ordinary field; '
  'has_extension answers for exactly the extensions present; setting again replaces the previous value; other '
  'extensions and the declared fields are unaffected; extensions found on the wire are retained per field number.',
  ['inputs', 'histories'], 'all extension values and operation sequences',
  'tests use fixed values per extension type',
  [I + 'binpb.hpp', B + 'deserialize.hpp'], [('extension_base get_from/set_to/in', I + 'binpb.hpp')])
p('P26', 'Generated code preserves names, literals and default values',
  'For any string or bytes default value in a .proto file the generated C++ literal denotes exactly those bytes, '
  'identifiers derived from proto names are valid and never C++ keywords, and string_literal carries every byte '
  '(including NUL) to the run-time default.',
  ['inputs'], 'all default values and identifiers', 'escaping depends on byte context (hex digits after escapes, NUL, quotes)',
  ['src/protoc-plugin/cpp_lexical_emitter.cpp', I + 'field_types.hpp'],
  [('literal and identifier emission', 'src/protoc-plugin/cpp_lexical_emitter.cpp'), ('string_literal, bytes_literal', I + 'field_types.hpp')])
p('P27', 'Dynamic messages agree with generated messages',
  'Reading bytes into a dynamic message and writing it back yields an encoding of the same message that the generated '
  'type of the same schema reads, accepts exactly the same inputs, and typed accessors return the values a generated '
  'message holds.',
  ['inputs'], 'all messages of all schemas', 'two independent implementations of the wire format must agree on every input',
  [I + 'dynamic_message/', 'src/dynamic_message/factory.cpp'], [('dynamic message codec', I + 'dynamic_message/pb_serializer_ext.hpp')],
  na=NA_DYN)
p('P28', 'Descriptor pools are consistent',
  'Building a descriptor pool from any valid file descriptor set links every type reference to the descriptor of that '
  'full name, registers every message, enum and field exactly once, and rejects sets with unresolved references.',
  ['inputs'], 'all file descriptor sets', 'tests load a few fixed sets',
  [I + 'descriptor_pool.hpp'], [('descriptor_pool', I + 'descriptor_pool.hpp')], na=NA_POOL)
p('P29', 'gRPC byte buffers carry exactly the encoded message',
  'The byte buffer produced for a message holds, concatenated over its slices, exactly the encoding of the message, '
  'and reading a message from a byte buffer of any slicing gives the message of the concatenated bytes.',
  ['inputs', 'configurations'], 'all messages and slicings', 'slice boundaries are chosen by the transport',
  [I + 'grpc/serialization.hpp'], [('byte_buffer_sink, read from slices', I + 'grpc/serialization.hpp')], na=NA_GRPC)
p('P30', 'Map fields round-trip with protobuf semantics',
  'A map field is written as one key/value entry message per element and reading it back yields the same map; a later '
  'entry with the same key replaces the earlier one. Within an entry (which must start with the key; entries that do '
  'not are rejected by design) a missing value means its default, a repeated key or value is replaced by the last '
  'one, and unknown fields are skipped.',
  ['inputs'], 'all maps and all entry encodings', 'entries may omit or repeat parts and repeat keys',
  [B + 'deserialize.hpp', B + 'serialize.hpp', B + 'meta.hpp'], [('map_entry', B + 'meta.hpp')])
p('P31', 'JSON mapping follows the protobuf JSON specification',
  'Writing a message as JSON and reading it back yields an equal message, and the text follows the protobuf JSON '
  'mapping (names, 64-bit integers as strings, enums by name, well-known types).',
  ['inputs'], 'all messages', 'value-dependent formatting',
  [I + 'json.hpp', I + 'json/'], [('glaze reflection glue', I + 'json.hpp')],
  na='The JSON layer is an instantiation of the glaze library, which is not in this sandbox (FetchContent needs the '
     'network), so no translation unit containing it can be compiled, let alone verified. Its codecs that do not need '
     'glaze (base64, timestamp) are decided by P19 and P20.')
p('P32', 'Strings are valid UTF-8 where proto3 requires it',
  'Reading or writing a proto3 string field with bytes that are not valid UTF-8 fails, and valid strings are never refused.',
  ['inputs'], 'all byte strings', 'validity is a property of every byte sequence',
  [B + 'utf8.hpp'], [('utf8_validation_failed', B + 'utf8.hpp')],
  na='The validator is the external library is_utf8 (simdutf family), absent from this sandbox; the build here defines '
     'HPP_PROTO_NO_UTF8_VALIDATION=1, so the code path does not exist in any build that can be made offline.')

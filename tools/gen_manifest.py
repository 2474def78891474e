"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand; not part of any check)."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, text, why, files, mech, state=None, na=None, note=''):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  state=state or [], na=na, note=note))


B = 'include/hpp_proto/binpb/'
I = 'include/hpp_proto/'
p('P01', 'Varints are encoded canonically',
  'Every 32/64-bit integer, zig-zag integer, bool or enum written as a varint produces exactly the minimal base-128 '
  'encoding the protobuf wire format defines (negative int32/int64/enum values as ten bytes), and the size the '
  'library predicts for it equals the number of bytes written.',
  ['inputs'], 'all values of every varint-encoded type',
  'the tests sample a handful of values per width; 2^64 values and every length boundary are quantified',
  [B + 'varint.hpp'], [('unchecked_pack_varint / encode_size', B + 'varint.hpp')],
  note='Complete over the value domain: no bound.')
p('P02', 'Varints are decoded exactly as specified',
  'Decoding a varint consumes exactly its bytes and yields the sum of its 7-bit groups truncated to the target type '
  '(zig-zag decoded or reduced to a bool where declared); over-long and unterminated varints are rejected and nothing '
  'past the terminating byte influences the value.',
  ['inputs'], 'all byte sequences up to the maximal varint length, followed by anything',
  'the decoder is branch-free bit arithmetic whose behaviour on each length and on garbage after it cannot be sampled',
  [B + 'varint.hpp', B + 'deserialize.hpp'], [('shift_mix_parse_varint, unchecked_parse_bool', B + 'varint.hpp')],
  note='Complete over a 16-byte window, which covers every varint; no bound.')
p('P03', 'Singular scalar fields: wire format, presence and round trip',
  'For every scalar field type, presence mode and value, serialization produces exactly the protobuf tag and payload '
  '(or nothing, when an implicit-presence field holds its default or an explicit one is unset), and deserializing '
  'those bytes restores the same value, bit for bit, and the same presence.',
  ['inputs'], 'all values of all scalar types, all tag widths, implicit / explicit presence and declared defaults',
  'tests check a few constants per type; NaN payloads, -0.0, extreme values and all tag widths are quantified',
  [B + 'serialize.hpp', B + 'deserialize.hpp', B + 'meta.hpp'],
  [('serialize_field / deserialize_field', B + 'serialize.hpp')])
p('P04', 'String and bytes fields of every length round-trip verbatim',
  'A string or bytes field of any length and content is written as tag, canonical length and the unmodified payload, '
  'and reading it back restores the same bytes and presence; an empty implicit-presence value is omitted.',
  ['inputs'], 'all lengths up to the message size limit and all contents',
  'length-prefix boundaries (127/128, 16383/16384, 2^21, 2^28) and large sizes are not reachable by unit tests',
  [B + 'serialize.hpp', B + 'deserialize.hpp'], [('length-delimited fields', B + 'serialize.hpp')])
p('P05', 'Decoding arbitrary bytes is safe and never silently accepts malformed input',
  'Reading any byte sequence into any message never reads or writes outside the buffers involved, never throws, always '
  'terminates, and returns success only for inputs that are a complete sequence of well-formed fields (valid field '
  'numbers and wire types, lengths inside the enclosing message, matching group ends); re-encoding an accepted '
  'message decodes to an equal message.',
  ['inputs'], 'all byte sequences, whether or not they are valid messages',
  'fuzzing samples inputs; truncation and corruption at every position for every field kind is a universal statement',
  [B + 'deserialize.hpp', B + 'varint.hpp'], [('deserialize_field_by_tag, skip_field, split of the region', B + 'deserialize.hpp')])
p('P06', 'Segmented input decodes exactly like contiguous input',
  'Splitting an encoded message into segments at arbitrary positions (inside tags, varints, lengths, fixed-width '
  'values and payloads, with empty segments) never changes the outcome: the same status and the same message as for '
  'the contiguous bytes.',
  ['inputs', 'configurations'], 'all inputs times all ways of cutting them',
  'the number of split positions times field kinds is combinatorial; tests use a few cuts of one message',
  [B + 'deserialize.hpp'], [('chunked input stream with bridging patch buffer', B + 'deserialize.hpp')])
p('P07', 'Every output mode produces the same bytes',
  'Serializing through a chunked, contiguous or adaptive sink of any chunk sizes yields, concatenated, exactly the '
  'bytes that serializing into a growable buffer yields; the announced message size is that length, no byte is written '
  'outside the chunks the sink hands out, and a sink that runs out of space makes serialization fail instead.',
  ['inputs', 'configurations'], 'all messages times all chunk-size sequences and sink modes',
  'chunk boundaries may fall inside any tag, length or payload; tests use a few fixed sizes',
  [B + 'serialize.hpp'], [('out_sink / chunked output archive', B + 'serialize.hpp')])
p('P08', 'The computed message size equals the bytes written',
  'For every message the size computed before encoding (including nested messages, packed lists, groups, maps and '
  'extensions) equals the number of bytes serialization then writes, so the output buffer is exactly filled, and a '
  'message above the protobuf size limit is refused.',
  ['inputs'], 'all message values',
  'two separate traversals must agree for every value; a disagreement corrupts memory only for specific values',
  [B + 'serialize.hpp'], [('message_size_calculator vs serializer', B + 'serialize.hpp')])
p('P09', 'Nesting depth is limited consistently',
  'Messages, groups, map values and unknown groups nested deeper than the configured recursion limit are rejected with '
  'an error when read and when written, whatever the nesting mixture, and any nesting up to the limit is accepted; '
  'depth is counted per path, so wide messages are never rejected.',
  ['inputs', 'configurations'], 'all inputs and all limits',
  'tests exercise one recursion shape at the default limit',
  [B + 'deserialize.hpp', B + 'serialize.hpp', I + 'recursion.hpp'], [('recursion_limit, recursion_guard', I + 'recursion.hpp')])
p('P10', 'Unknown fields are preserved byte for byte',
  'When unknown-field retention is enabled, every well-formed field the message does not declare (any field number, '
  'wire type, length, nested groups, non-minimal tags) is kept verbatim and in order and written back on serialization; '
  'declared fields are unaffected by their presence and malformed unknown fields are errors.',
  ['inputs'], 'all interleavings of declared and undeclared fields with all contents',
  'tests use a couple of unknown varints and strings',
  [B + 'deserialize.hpp', B + 'serialize.hpp', B + 'meta.hpp'], [('deserialize_unknown, skip_group, pb_unknown_fields', B + 'deserialize.hpp')])
p('P11', 'Closed enums never store undeclared values',
  'Reading a closed-enum field (singular, optional, repeated, packed, oneof member, map value) never stores a number that is not a '
  'declared enumerator: the value is treated as an unknown field (retained if retention is on), the field keeps its '
  'previous state and decoding succeeds, while open enums keep every number.',
  ['inputs'], 'all enum numbers in all field positions',
  'the test suite tries one undeclared number in a few positions',
  [B + 'deserialize.hpp', B + 'meta.hpp'], [('closed_enum handling', B + 'deserialize.hpp')])
p('P12', 'At most one oneof member is set and the last one on the wire wins',
  'After decoding any sequence of oneof members exactly the last one is set with its own value, including zero/empty '
  'values, and message members appearing consecutively are merged; a set member is always written even when it '
  'holds its default, and an unset oneof writes nothing.',
  ['inputs', 'histories'], 'all sequences of oneof members and values',
  'member-to-member transitions are quadratic in the members and interact with merging',
  [B + 'deserialize.hpp', B + 'serialize.hpp'], [('oneof handling over std::variant', B + 'deserialize.hpp')])
p('P13', 'Repeated scalars accept packed and unpacked encodings interchangeably',
  'A repeated scalar field reads back every element in order from packed, unpacked or mixed encodings in any number of '
  'pieces, writes the encoding its declaration asks for with a correct length prefix, and rejects a packed payload '
  'that is not a whole number of elements.',
  ['inputs'], 'all element values, counts and mixtures of encodings',
  'mixtures and truncated packed payloads are unbounded families',
  [B + 'deserialize.hpp', B + 'serialize.hpp'], [('deserialize_packed_repeated and its fast paths', B + 'deserialize.hpp')])
p('P14', 'A field is selected by its full field number and wire type',
  'For every field number from 1 to 2^29-1 a record on the wire sets the declared field with exactly that number and '
  'no other, independent of declaration order and of how the tag is encoded; a record whose wire type does not fit the '
  'declared field never changes it; field number zero is rejected.',
  ['inputs', 'programs'], 'all field numbers, wire types and tag encodings',
  'lookup uses compile-time generated masks and tables; tests only use small consecutive numbers',
  [B + 'deserialize.hpp', B + 'meta.hpp'], [('reverse_indices / field lookup by number', B + 'deserialize.hpp'), ('read_tag', B + 'deserialize.hpp')])
p('P15', 'Concatenated encodings decode to the merge of the messages',
  'Decoding the concatenation of two encodings gives: last value for singular scalars and strings, concatenation for '
  'repeated fields, recursive merge for singular submessages and groups, last member for oneofs, and last value per '
  'key for maps; the order of fields on the wire is otherwise irrelevant.',
  ['inputs', 'histories'], 'all pairs of messages',
  'pairs of populated states are quadratic; tests check a few',
  [B + 'deserialize.hpp'], [('merge-on-read semantics', B + 'deserialize.hpp')])
p('P16', 'Write replaces, append appends, read resets',
  'Serializing into a used buffer leaves exactly the encoding, appending leaves the previous content followed by '
  'exactly the encoding, and deserializing into a used message leaves nothing of its previous content.',
  ['inputs', 'histories'], 'all previous buffer / message states',
  'tests start from fresh objects',
  [I + 'binpb.hpp', B + 'serialize.hpp'], [('write_binpb / append_binpb / read_binpb', I + 'binpb.hpp')])
p('P17', 'Any packing is faithful and type-safe',
  'Packing a message into an Any stores its type URL and exactly its encoding, unpacking to the same type restores it, '
  'and unpacking succeeds only if the part of the URL after the last slash is the full name of the requested type.',
  ['inputs'], 'all payloads and all type URLs',
  'URLs with near-miss suffixes or prefixes are an unbounded family',
  [I + 'binpb.hpp'], [('pack_any / unpack_any', I + 'binpb.hpp')])
p('P18', 'merge() follows protobuf merge semantics',
  'Merging a source message into a destination changes only fields set in the source: scalars, strings and set '
  'optionals are replaced, repeated fields and unknown fields are appended, submessages are merged recursively, '
  'map entries are inserted or replaced, oneofs switch to the source member; a source passed by const reference is '
  'unchanged, and moving or copying gives the same result.',
  ['inputs', 'histories'], 'all pairs of source and destination',
  'tests check a few pairs', [I + 'merge.hpp'], [('message_merger', I + 'merge.hpp')])
exec(open(V + '/tools/props2.py').read())
HS = {}
for f in glob.glob(V + '/harness/*.cpp'):
    for m in re.finditer(r'^//@ (.*)\n((?://.*\n)*)\s*VP_HARNESS\((\w+)\)', open(f).read(), re.M):
        o = {k: v.strip('"') for k, v in re.findall(r'(\w+)=("[^"]*"|\S+)', m.group(1))}
        for i in o['props'].split(','):
            HS.setdefault(i, []).append((m.group(3), o.get('bound'), o.get('tier', 'quick'), 'kf' in o))
with open(V + '/properties.jsonl', 'w') as f:
    for x in P:
        f.write(json.dumps({'id': x['id'], 'title': x['title'], 'statement': x['statement'],
                            'quantifier': {'over': x['over'], 'text': x['text']}, 'why_tests_cant': x['why'],
                            'anchors': {'files': x['files'], 'mechanism': [{'name': n, 'where': w} for n, w in x['mech']],
                                        'state': x['state'], 'hook_needed': None}}) + '\n')
checks, na = [], []
for x in P:
    hs = [h for h in HS.get(x['id'], []) if h[2] == 'quick']
    if x['na'] or not hs:
        na.append({'property': x['id'], 'reason': x['na'] or 'not brought under contract yet'})
        continue
    full = [h[0] for h in hs if not h[1]]
    bnd = [h[0] for h in hs if h[1]]
    note = x['note'] + (' ' if x['note'] else '')
    note += 'Contracts proved for every input of their domain: %d (%s).' % (len(full), ', '.join(sorted(full)) or 'none')
    if bnd:
        note += ' Bounded stand-ins, never counted as proved: %d (%s; bounds in the evidence file).' % (len(bnd), ', '.join(sorted(bnd)))
    note += ' Trusts clang/LLVM 20 lowering, the VC generator in vpv/, z3/cvc5 and the models of libstdc++ out-of-line functions listed in the evidence; ' \
            'holds for the template instantiations the harnesses name.'
    tb = ('contract-based deductive verification: pre/postconditions on the real functions, VCs generated from their '
          'LLVM IR on every run, discharged by z3/cvc5' + ('' if full else ' (input size bounded)'))
    checks.append({'property': x['id'], 'quick_cmd': './check.sh ' + x['id'], 'thorough_cmd': 'VERIF_TIER=thorough ./check.sh ' + x['id'],
                   'technique': tb, 'level': 'proof' if full else 'other', 'level_note': note})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks are needed in /repo: harnesses include the real headers / sources. Known findings and fixes: known_findings.txt.'},
          open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', [n['property'] for n in na])

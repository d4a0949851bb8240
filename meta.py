#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json."""
import json, os

V = os.path.dirname(os.path.abspath(__file__))
READ, WRITE, IMPLS, DR, DW, DS = 'src/reader.rs', 'src/writer.rs', 'src/impls/', 'deku-derive/src/macros/deku_read.rs', 'deku-derive/src/macros/deku_write.rs', 'deku-derive/src/macros/deku_size.rs'
LIB, CTX, PRIM = 'src/lib.rs', 'src/ctx.rs', 'src/impls/primitive.rs'
P = []


def p(id, title, statement, over, text, why, files, mechanism, technique, note, level='exploration', state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism, technique=technique, note=note, level=level, state=state, observe=observe))


ZOO = 'The workload is a zoo of about 240 generated types plus custom ones, and seeded inputs; what no type or input of it shows is not seen.'

p('R01', 'What is written reads back as the same value',
  'Every value of a derived type that can be written and whose fields determine their own encoding is read back from the written bytes as an equal value, through every way to write and to read, consuming exactly what was written. This holds whatever the sizes, byte orders, bit orders, paddings, counts, magics, ids and nesting its definition declares.',
  ['inputs', 'programs'], 'every derived type definition and every value of it whose encoding is determined by its fields',
  'The tests round-trip single hand-picked values of a few definitions each; the claim is over all definitions and values, and combinations of attributes (unaligned fields, bit orders, nesting in enums, collections) are barely sampled.',
  [DR, DW, READ, WRITE, IMPLS], [('derived readers', DR), ('derived writers', DW), ('primitive encodings', PRIM)],
  'runtime monitor: written bytes are read back and compared, against a reference interpreter of the definition', 'Held on the observed (type, value) pairs. ' + ZOO)
p('R02', 'Reading then writing reproduces the bytes that were read',
  'When a value is read from some bytes and its definition stores everything those bytes said, writing it reproduces exactly the bytes consumed, except for padding and for the unused bits of a last partial byte, which are written as zeros.',
  ['inputs', 'programs'], 'every accepted input of every derived type which keeps all it reads',
  'Tests assert this for the bytes they list; it quantifies over all accepted byte strings, including odd ids, non-canonical bits and unaligned layouts.',
  [DR, DW, READ, WRITE, PRIM], [('derived readers', DR), ('derived writers', DW)],
  'runtime monitor: decoded values are re-encoded and compared byte by byte with what was consumed', 'Held on the observed inputs. ' + ZOO)
p('R03', 'Integers and floats have the declared width, byte order, bit order and sign',
  'An integer, float, bool or non-zero integer is read from and written to exactly the bits its width, byte order and bit order designate, at any bit offset, and signed values keep their sign when their field is narrower than their type. Without a declared order, byte order is that of the machine and bits come most significant first.',
  ['inputs', 'configurations'], 'every scalar type, width, byte order, bit order, bit offset and value',
  'There are about 20 scalar types times up to 128 widths times 2 byte orders times 2 bit orders times 8 offsets; the tests contain a few dozen of these combinations and few values of each.',
  [PRIM, READ, WRITE, 'src/impls/bool.rs', 'src/impls/nonzero.rs', CTX], [('integer and float codecs', PRIM), ('bit buffering', READ), ('bit buffering', WRITE)],
  'runtime monitor: bit-level reference model of scalar layout, observing reads and writes over all widths, orders and offsets', 'All combinations of type, width, orders and offset with sampled values, both directions; some combinations named in DESIGN.md are not judged.')
p('R04', 'What a read reports as consumed and left over is exact',
  'After a successful read, the reported number of consumed bits, the remaining bytes and their bit offset are exactly those of the encoding of the value, and reading may be continued from there as if it were one stream. Reading starts at the requested bit offset, and converting a whole byte string to a value fails when bytes are left over.',
  ['inputs', 'programs', 'histories'], 'every type, input, initial bit offset and sequence of reads',
  'The tests check remainders for few types, mostly aligned; offsets, chained reads and buffered partial bytes multiply beyond any list of cases.',
  [LIB, READ, DR], [('from_bytes / from_reader', DR), ('bits_read, rest and leftover handling', READ)],
  'runtime monitor: bit accounting by a reference interpreter, and chained reads compared with one continued stream', 'Held on the observed (type, input, offset) triples and chains.',
  state=[('bits_read', 'bits handed out so far', READ), ('leftover', 'bits or byte fetched from the stream but not handed out', READ)])
p('R05', 'Every way to read gives the same result, however the data arrives',
  'Reading from a byte slice, from a stream, or by conversion gives the same value, consumption or class of error, however few bytes each read call of the stream delivers and however often it is interrupted. A stream is left positioned directly after the bytes the value used.',
  ['inputs', 'schedules', 'programs'], 'every type and input, and every way a stream may split or interrupt delivery',
  'Existing tests use in-memory cursors which always deliver everything; splitting of reads is a schedule of its own which they never vary.',
  [READ, DR, LIB, PRIM, IMPLS], [('read_bytes, read_bits, fill', READ), ('container entry points', DR)],
  'runtime monitor: streams with adversarial delivery, recorded and compared with the slice path', 'Held on the observed deliveries (1..n bytes per call, interruptions).')
p('R06', 'Every way to write gives the same bytes',
  'Writing to a vector, a slice, a bit vector, a stream, or by conversion gives the same bytes, however few bytes each write call accepts, whatever precedes them, and the number of bytes reported or left is theirs. A slice that is exactly large enough is enough, and one that is smaller is refused with an error.',
  ['inputs', 'schedules', 'programs'], 'every value of every type, every sink and every buffer size',
  'Tests use one way to write per case, with generous buffers and sinks which accept everything.',
  [WRITE, DW, LIB], [('write_bits / write_bytes / finalize', WRITE), ('to_bytes, to_bits, to_slice', LIB)],
  'runtime monitor: sinks with partial acceptance, all entry points compared with each other and with a reference encoder', 'Held on the observed (value, sink) pairs.')
p('R07', 'Input that ends early is refused as incomplete',
  'Any proper prefix of the bytes a type needs is refused with the error that says more data is needed, asking for at least one bit, never accepted, never another error and never a panic. The only exceptions are definitions that ask to read until the end, and definitions that seek.',
  ['inputs', 'crash_points', 'programs'], 'every accepted input of every type cut at every byte and, where it applies, bit',
  'Every truncation point of every input of every type is a case of its own; the tests cut a handful of inputs at one point.',
  [READ, IMPLS, DR, 'src/error.rs'], [('mapping of short reads', READ), ('NeedSize', 'src/error.rs')],
  'runtime monitor: truncation at every byte of accepted inputs, outcome checked against the class of error', 'Every cut of every observed input.', 'fault_enumeration')
p('R08', 'A failing stream surfaces as its own error while reading',
  'When the underlying stream fails, reading returns that failure with its kind, wherever in the read it happened, and never a value, a made-up byte, a panic or the claim that the data ended. Data delivered before the failure decides nothing that was not already decided by it.',
  ['fault_sequences', 'inputs', 'programs'], 'every type and input, with a failure of each kind at every operation of the stream',
  'No test injects a failure into a stream at every operation; in-memory cursors never fail.',
  [READ, IMPLS, DR, 'src/error.rs'], [('error mapping in fill, read_bytes, read_bits, end, skip and seek', READ)],
  'runtime monitor with fault injection: a failure at every operation of the recorded stream history', 'Every operation index of every observed read, several kinds.', 'fault_enumeration')
p('R09', 'A failing sink surfaces as its own error while writing',
  'When the underlying sink fails, refuses bytes or cannot seek, writing returns that failure with its kind wherever it happens, and what the sink accepted before is a prefix of the correct encoding. Success is never reported while bytes are missing.',
  ['fault_sequences', 'inputs', 'programs'], 'every value of every type, with a failure of each kind at every operation of the sink',
  'No test injects failures into the sink at every operation.',
  [WRITE, LIB, DW], [('error mapping in write_bits, write_bytes, finalize and seek', WRITE)],
  'runtime monitor with fault injection: a failure at every operation of the recorded sink history', 'Every operation index of every observed write, several kinds.', 'fault_enumeration')
p('R10', 'Hostile input cannot panic, hang or exhaust memory',
  'For any input bytes, reading returns a value or an error: it does not panic, does not run on without consuming input, and allocates no more than a constant plus a bounded multiple of the bytes actually supplied, whatever counts and sizes the input claims. Writing and updating the resulting value does not panic either.',
  ['inputs', 'programs'], 'every byte string given to every type',
  'Resource bounds and the absence of panics quantify over all inputs; tests contain few adversarial counts, seeks or paddings.',
  [READ, IMPLS, DR, DW, PRIM], [('chunked allocation for counts', 'src/impls/vec.rs'), ('limits and padding arithmetic', DR), ('bounded initial capacity', 'src/impls/mod.rs')],
  'runtime monitor: counting allocator, operation budget, hang watchdog and panic hook under hostile and mutated inputs', 'Held on the observed inputs with limits of 256 KiB + 2048 bytes per input byte; elements without width and hostile paddings that must be written are left out (DESIGN.md).')
p('R11', 'Values that do not fit their field are refused, not truncated',
  'Writing an integer whose value needs more bits than its field has fails with an error and leaves no altered value behind, and every value that fits is written and reads back as itself. A bool read from anything but zero or one, a zero for a non-zero integer, and a string without its terminator are refused as well.',
  ['inputs', 'configurations'], 'every scalar type, field width and value',
  'The boundary lies at a different value for every one of thousands of (type, width, order) combinations; tests try a few.',
  [PRIM, 'src/impls/bool.rs', 'src/impls/nonzero.rs', 'src/impls/cstring.rs'], [('size checks before writing', PRIM)],
  'runtime monitor: boundary values of every width written and observed for refusal or exact round trip', 'All widths with boundary and random values. Sizes in bytes keep the low bytes (pinned by the tests) and are not judged for refusal.')
p('R12', 'A collection takes exactly the elements its limit designates',
  'A vector, boxed or shared slice, map or set with a count takes that many elements, with a size in bits or bytes takes the elements that make up that size and refuses to overrun it, with a predicate stops after the first element satisfying it, and until the end takes everything there is. Elements keep their order, each is read with the context of the collection, and nothing beyond the last element is consumed.',
  ['inputs', 'programs'], 'every kind of collection, element type, limit and input, including empty collections and limits that divide no element',
  'Collections times limits times element widths times alignments is a large product from which the tests take single points.',
  ['src/impls/vec.rs', 'src/impls/hashmap.rs', 'src/impls/hashset.rs', 'src/impls/boxed.rs', 'src/impls/arc.rs', 'src/impls/cstring.rs', CTX, DR], [('limit loops', 'src/impls/vec.rs'), ('Limit', CTX), ('derived limits', DR)],
  'runtime monitor: reference interpreter decides elements and consumption for every limit', 'Held on the observed (collection, limit, input) triples.')
p('R13', 'Enums select the variant their id designates, and know their id',
  'Reading an enum selects the first variant in order of declaration whose id, pattern or discriminant matches the id read or given, else the default, else fails saying no variant was found; writing a variant writes its own id in the same size and order. The id that can be asked of a value is the one it is written with.',
  ['inputs', 'programs'], 'every enum definition, id value and variant',
  'Tests list a few ids per definition; overlapping patterns, wide ids, signed and byte-array ids, ids in bits and ids out of context multiply.',
  [DR, DW, 'deku-derive/src/lib.rs'], [('id match', DR), ('id write and deku_id', DW)],
  'runtime monitor: reference interpreter of dispatch, over all ids of narrow types and mutated ids of wide ones', 'Held on the observed (definition, id) pairs.')
p('R14', 'Magic values and assertions gate both reading and writing',
  'A value is accepted only if every magic of its definition is found where it is declared, else the error names a parse failure; and only if every assertion holds of the values read, else the error names an assertion, also when writing. Nothing that fails a gate is returned, and nothing that passes them all is refused because of them.',
  ['inputs', 'programs'], 'every definition with magics or assertions and every input, including every single changed bit of an accepted one',
  'Tests check one mismatch; any single altered bit of any magic, at any alignment, must be noticed.',
  [DR, DW], [('magic read and write', DR), ('assert, assert_eq', DR), ('checks before writing', DW)],
  'runtime monitor: single bit flips and mutations of accepted inputs against a reference interpreter of the gates', 'All single bit flips of the observed inputs of the tagged types.')
p('R15', 'Conditions, skips, defaults, temporaries and conversions act as declared',
  'A field whose condition is false or which is skipped consumes nothing and has its default value, evaluated from the fields before it; a temporary field is consumed and produced but not stored; a mapped or custom field is exactly what its function makes of the data at that position. A failure of such a function is the failure of the whole.',
  ['inputs', 'programs'], 'every definition using these attributes, and every input',
  'The attributes interact with order, alignment and each other; the tests use each once or twice in isolation.',
  [DR, DW], [('field read', DR), ('field write', DW)],
  'runtime monitor: reference interpreter of the attributes, positions observed from inside custom functions', 'Held on the observed (type, input) pairs.')
p('R16', 'Padding and seeks move by exactly what is declared, both ways',
  'Padding before or after a field skips exactly its bits or bytes when reading and writes as many zeros when writing, and a seek places the next field exactly at the designated position of the stream, also behind buffered bits. A negative amount of padding is refused, and a seek outside what is possible is an error.',
  ['inputs', 'programs'], 'every amount, also computed from earlier fields, at every alignment',
  'Amounts may depend on the data; alignment and buffered bytes interact with seeks in ways the tests sample once each.',
  [DR, DW, READ, WRITE], [('padding and seek code', DR), ('skip_bits, seek', READ), ('seek', WRITE)],
  'runtime monitor: recorded operations of stream and sink, and positions, against a reference interpreter', 'Held on the observed (type, input) pairs.')
p('R17', 'Update recomputes exactly the fields that declare it',
  'Updating a value sets every field with an update expression to that expression evaluated on the current value, converted without loss or refused with an error, in every variant and in order, and changes nothing else. After it, a value whose counts are declared as updates can be written and read back.',
  ['inputs', 'programs'], 'every definition with updates and every value',
  'Tests update one value of a few structs; losses in conversion and variants are not exercised.',
  [DW, 'deku-derive/src/lib.rs'], [('update generation', DW)],
  'runtime monitor: state before and after update compared with expressions evaluated independently', 'Held on the observed values.')
p('R18', 'A type that states its encoded size is encoded in that size',
  'For a type with a fixed size, every value is encoded in exactly the bits it states, and for enums in at most that many; the size in bytes is stated exactly when it is a whole number of bytes.',
  ['inputs', 'programs'], 'every definition with a declared fixed size, and every value',
  'The size is computed by separate code from the definition; every combination of attributes can make the two disagree.',
  [DS, LIB, IMPLS], [('size generation', DS), ('DekuSize impls', IMPLS)],
  'runtime monitor: bits observed when reading and writing compared with the stated size', 'Held on the observed types and values; types with temporaries are not judged.')
p('R19', 'Failures and panics in the middle of a value never break memory safety',
  'Whatever element of an array, collection or structure fails or panics while it is read or written, no element is dropped twice, none is used without having been read, and none that was read is leaked when the failure is returned. No operation on any input has undefined behaviour.',
  ['inputs', 'fault_sequences'], 'every container, with a failure or a panic at every element',
  'Tests cannot see undefined behaviour, and a double drop or use of uninitialised memory at one failing position often goes unnoticed.',
  ['src/impls/slice.rs', DR, DW, 'src/impls/vec.rs', READ], [('array assembled in uninitialised memory', 'src/impls/slice.rs'), ('discriminants read through pointers', DR)],
  'Miri, AddressSanitizer and LeakSanitizer, and an ownership ledger of every element', 'Held on the observed executions; Miri with tree borrows for deku alone and without borrow rules where bitvec (which breaks them) takes part.')
p('R20', 'Byte order, bit order and context reach every nested element',
  'A byte order, bit order, size or context argument declared on a type or field applies to everything inside it that does not declare its own: elements of collections, arrays and tuples, boxed, optional and nested values, ids and variants. What is declared closest wins, for reading and writing alike.',
  ['programs', 'inputs'], 'every nesting of containers and definitions, and every value',
  'Each container forwards context on its own; the product of containers, attributes and nesting depths is large and tests take single points.',
  [DR, DW, CTX, IMPLS, 'deku-derive/src/macros/mod.rs'], [('context arguments of fields', 'deku-derive/src/macros/mod.rs'), ('forwarding in containers', IMPLS)],
  'runtime monitor: reference interpreter with its own inheritance rules, on asymmetric values', 'Held on the observed (type, input) pairs.')
p('R21', 'Every feature configuration behaves the same',
  'With or without the standard library, allocation, bit support, descriptive errors or logging, every type that can be defined reads, refuses, writes and updates exactly alike: same values, same bytes, same consumption, same class of error. Optional features add entry points and texts, they change no result.',
  ['configurations', 'inputs'], 'every combination of features and every input',
  'The tests run in the default configuration; code for the others is selected by conditional compilation and is only compiled.',
  [READ, WRITE, PRIM, DR, DW, DS, LIB, 'src/error.rs', 'Cargo.toml'], [('conditional compilation', READ)],
  'differential runtime monitor: transcripts of the same workload recorded in eleven feature configurations', 'Held on the observed inputs in 11 configurations, on this machine.')
p('R22', 'A stream that cannot seek gives the same results as one that can',
  'Wrapped for use without seeking, a stream or sink gives the same values, bytes and errors as a seekable one for every definition that does not seek backwards, and its reported position is exactly the number of bytes passed. A seek it cannot perform is an error, never a wrong position or lost data.',
  ['inputs', 'histories'], 'every type and input, and every sequence of reads, writes and seeks',
  'Tests read two values through it; positions after arbitrary histories are not observed.',
  ['src/noseek.rs', READ, WRITE], [('NoSeek', 'src/noseek.rs')],
  'runtime monitor: the wrapper compared with a seekable stream, and its position with a count, over random histories', 'Held on the observed histories.')
p('R23', 'Low-level reader and writer operations compose',
  'Any sequence of reading bits and bytes, skipping, seeking and asking for the end yields the same data as those operations on one string of bits, whatever is buffered in between; any sequence of writing bits and bytes yields their concatenation. Counts of bits read, written and left stay exact throughout.',
  ['histories', 'inputs'], 'every sequence of low-level operations in either bit order on any data',
  'The state is a history: buffered bits, a buffered byte, position; tests contain short fixed sequences.',
  [READ, WRITE], [('leftover buffering', READ), ('leftover buffering', WRITE)],
  'runtime monitor: recorded histories of operations replayed on a model of a bit string', 'Held on the observed histories, short ones enumerated and long ones random.',
  state=[('leftover', 'bits or byte fetched but not handed out', READ), ('leftover', 'bits accepted but not yet written', WRITE)])
p('R24', 'Library types have the documented representation',
  'Options, boxes, shared pointers, copy-on-write values, tuples, arrays, units, strings, addresses, non-zero integers, maps and sets are read from and written to exactly the bytes of what they contain, in order and with its context. Sizes given to them apply to their elements, and a string ends with its terminator, at the size it is given.',
  ['inputs', 'programs'], 'every supported library type, context and input',
  'Each has its own implementation for each context it accepts; the tests take one or two of each.',
  [IMPLS], [('implementations for library types', IMPLS)],
  'runtime monitor: each type compared with a reference encoding of its contents over random inputs and contexts', 'Held on the observed (type, context, input) triples.')
p('R25', 'Fixed-size values need no heap',
  'Reading an accepted input and writing a value of a type made only of fixed-size parts allocates no heap memory, so that it works where there is none. This holds for streams and slices alike.',
  ['inputs', 'programs'], 'every type of fixed-size parts and every accepted input',
  'Allocation is invisible to tests; only a build without an allocator would notice, and only where it links.',
  [READ, WRITE, PRIM, IMPLS, DR, DW], [('fixed buffers for leftovers and integers', READ)],
  'runtime monitor: allocator that counts allocations during each operation', 'Held on the observed operations of the types it applies to.')
p('R26', 'Errors keep their meaning through conversion, display and need',
  'Every error keeps its class when it becomes an error of the platform, carries the text it was made with, formats without panicking, and when data is missing states a size consistent in bits and bytes. The failure of a stream becomes an error with the same kind again.',
  ['inputs', 'fault_sequences'], 'every error that any operation of the workload produces',
  'Errors are produced at hundreds of places; tests look at the text of few.',
  ['src/error.rs', DR, READ], [('conversions and formatting', 'src/error.rs')],
  'runtime monitor on every error that passes: conversion, kind, text and size checked where it is observed', 'Held on all errors observed.')
p('R27', 'Results do not depend on the machine',
  'On a machine with the other byte order or another pointer width, every type with explicit byte orders and fixed-width fields reads, refuses, writes and updates exactly as here. A type without a byte order does there what it does here when declared with the order of that machine.',
  ['configurations', 'inputs'], 'every byte order and pointer width of the machine, and every input',
  'The tests run on one machine; nothing they do can show what another byte order or pointer width changes.',
  [PRIM, CTX, READ, WRITE, DR, DW], [('native byte order', CTX), ('integer codecs', PRIM)],
  'differential runtime monitor: the workload interpreted by Miri as on big-endian and 32-bit machines, transcripts compared with native ones', 'Held on the observed inputs on a big-endian 64-bit and a little-endian 32-bit machine as Miri emulates them.')


p('R28', 'What a derived type does does not depend on the names around it',
  'A definition deku accepts keeps compiling, and reads, writes, updates, refuses and measures exactly the same, when names that carry no meaning to the format are chosen differently: the names of types, type parameters, lifetimes, fields, variants, context arguments, constants, functions and modules, inherent methods the types happen to have, the name under which the program depends on deku, and the language edition.',
  ['configurations', 'inputs'], 'every choice of such names and every input',
  'Derived code lives among the names of the user; the tests choose one name for each thing.',
  [DR, DW, 'deku-derive/src/macros/mod.rs', 'deku-derive/src/lib.rs'], [('names in derived readers', DR), ('names in derived writers', DW)],
  'differential runtime monitor: programs that differ in names only, transcripts of their executions compared', 'Held for the observed programs (names drawn at random, with those derived code and the crate use themselves preferred) and inputs.')


def main():
    with open(V + '/properties.jsonl', 'w') as f:
        for x in P:
            assert len(x['title']) <= 80, x['id']
            a = {'files': x['files'], 'mechanism': [{'name': n, 'where': w} for n, w in x['mechanism']], 'hook_needed': None}
            if x['state']:
                a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in x['state']]
            a['observe_at'] = x['observe'] or ['public API: values, errors, consumed and produced bytes']
            f.write(json.dumps({'id': x['id'], 'title': x['title'], 'statement': x['statement'], 'quantifier': {'over': x['over'], 'text': x['text']}, 'why_tests_cant': x['why'], 'anchors': a}) + '\n')
    m = {
        'version': 1,
        'setup_cmd': './check.sh setup',
        'hooks': {'guard': 'none', 'enable': 'no hooks: the monitors observe the public interface, and build /repo as a path dependency', 'source_commits': []},
        'checks': [{'property': x['id'], 'quick_cmd': f'./check.sh {x["id"]} quick', 'thorough_cmd': f'./check.sh {x["id"]} thorough', 'technique': x['technique'], 'level': x['level'], 'level_note': x['note']} for x in P],
        'not_applicable': [],
        'notes': 'Every check is check.sh PROPERTY TIER; see DESIGN.md. properties.jsonl and this file are written by meta.py.',
    }
    json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
    open(V + '/MANIFEST.json', 'a').write('\n')


main()

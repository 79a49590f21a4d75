#!/usr/bin/env python3
"""Writes properties.jsonl (the one place where the properties are worded)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = []


def P(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m} for n, m in state]
    if observe:
        a['observe_at'] = observe
    out.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
                'why_tests_cant': why, 'anchors': a})


PARSER, GEN, NUMB, OBJF, VALUE, IMPL, SHORTF, LIB, ERR, CONV, PD = (
    'src/parser.rs', 'src/codegen.rs', 'src/number.rs', 'src/object.rs', 'src/value/mod.rs', 'src/value/implements.rs',
    'src/short.rs', 'src/lib.rs', 'src/error.rs', 'src/util/mod.rs', 'src/util/print_dec.rs')

P('C01', 'Parsing accepts exactly the RFC 8259 grammar',
  'Parsing succeeds for a text exactly when the whole text is a JSON text of RFC 8259 (one value, optional space, tab, line feed or '
  'carriage return around tokens, nothing else before or after), provided that every escaped surrogate is part of a pair, that no integer '
  'has more than 32767 digits beyond the 64-bit range and that non-empty containers nest at most 512 deep; beyond these limits it is refused.',
  ['inputs'], 'every string a caller can pass to parse',
  'the set of texts is infinite; the tests sample a few dozen valid and invalid ones and a JSONTestSuite-like list',
  [PARSER, LIB], [('Parser::parse state machine', PARSER), ('expect_* macros', PARSER)], observe=['json::parse result: Ok or Err'])
P('C02', 'A refused text reports the kind and character of its first error',
  'When the text is refused because it ends too early the error says unexpected end of JSON; when it is refused because of a character that '
  'cannot continue any JSON text, the error is an unexpected character and names exactly the first such character of the text. (Texts that '
  'also exceed a limit of C01, or that contain an unpaired surrogate escape, may be refused for that reason.)',
  ['inputs'], 'every string that parse refuses',
  'each refusing branch of the parser must be reached with every kind of offending character; the tests check two messages',
  [PARSER, ERR], [('Parser::unexpected_character', PARSER), ('expect_* macros', PARSER)], observe=['json::parse error value'])
P('C03', 'Parsing never panics and never reads outside of the text',
  'For every text parsing does not panic, reads only bytes of the text and computes no overflowing index or length, with and '
  'without overflow checks.',
  ['inputs', 'configurations'], 'every string; debug and release arithmetic',
  'memory safety of raw pointer reads cannot be seen by passing tests, and the interesting texts (truncations at every state, very long numbers) are not enumerable',
  [PARSER], [('Parser::read_byte and byte_ptr', PARSER), ('expect_fraction / expect_exponent', PARSER)])
P('C04', 'Parsed strings decode every escape and keep every other character',
  'A string of the text becomes the value in which every escape sequence (two-character escapes, \\u escapes, surrogate pairs) is replaced by '
  'the character that RFC 8259 assigns to it and every other character is kept as it is; this holds for values and for object keys.',
  ['inputs'], 'every string token of every accepted text',
  'escapes combine arbitrarily with plain text and with earlier strings of the same document (the scratch buffer is reused)',
  [PARSER], [('Parser::read_complex_string', PARSER), ('Parser::read_codepoint', PARSER)], state=[('buffer', 'scratch bytes of the decoded string')])
P('C05', 'Nesting is accepted up to a depth of 512 and refused beyond',
  'A text whose non-empty containers nest more than 512 deep is refused with the depth error at the container that exceeds the limit, and a '
  'text that stays within the limit is never refused with it (integers whose exponent leaves the representable range aside).',
  ['inputs'], 'every nesting of arrays and objects',
  'depth combines with arbitrary siblings; the tests nest one shape only',
  [PARSER], [('DEPTH_LIMIT', PARSER), ('parse stack', PARSER)])
P('C06', 'Parsed numbers keep sign, digits and power of ten',
  'A number of the text is read as the decimal value it denotes: sign, decimal digits and exponent are accounted for exactly while the digits '
  'fit in 64 bits; a digit that no longer fits is left out (an integer digit then raises the exponent), and an exponent beyond the 16-bit '
  'range saturates.',
  ['inputs'], 'every number token of every accepted text',
  'digit counts, signs, fraction and exponent combine without bound; overflow boundaries of the mantissa and of the exponent are specific values',
  [PARSER, NUMB], [('expect_number / read_big_number / expect_fraction / expect_exponent', PARSER)])
P('C07', 'The parsed value has the structure of the text',
  'Every element of an array of the text appears exactly once and in order in the resulting array, every member of an object is inserted under '
  'its own key in order (a later duplicate replaces the earlier one), and literals, strings, numbers and containers become values of their own kind.',
  ['inputs'], 'every accepted text',
  'nesting and order of siblings are unbounded; the parser keeps an explicit stack of partial containers whose pairing tests sample only shallowly',
  [PARSER], [('StackBlock stack', PARSER)], state=[('stack', 'partially built containers and the index of the pending member')])
P('C08', 'Every serialisation is a grammatical JSON text',
  'Every way to serialise a value (compact, pretty, to a string or to a writer) emits a text that is grammatical JSON, with NaN printed as null.',
  ['inputs'], 'every JsonValue, every indentation width',
  'values nest and combine without bound: separators and brackets must be right for every position of every kind of value',
  [GEN, VALUE, LIB], [('Generator::write_json / write_object', GEN)], observe=['bytes given to the writer or returned'])
P('C09', 'Printed strings decode back to the same text',
  'A serialised string or object key, decoded as RFC 8259 says, gives back exactly the original text, and contains no raw quote, backslash or control character.',
  ['inputs'], 'every string value and every key',
  'the escape table has 256 entries and positions of escapes are unbounded',
  [GEN], [('write_string / write_string_complex', GEN), ('ESCAPED table', GEN)])
P('C10', 'Printed numbers denote the stored decimal value',
  'A finite number is printed as a JSON number that denotes exactly its sign, mantissa and power of ten, without writing outside of the digit buffer.',
  ['inputs'], 'every sign, 64-bit mantissa and 16-bit exponent',
  '2^80 numbers; the boundaries between the plain, fractional and exponent notations are specific exponents',
  [PD, GEN, NUMB], [('print_dec::write', PD)])
P('C11', 'Write errors are reported and nothing is written after them',
  'When the writer fails, the serialisation stops, returns that error, and the writer gets no further bytes; when it returns success every '
  'byte of the text was handed to the writer.',
  ['inputs', 'fault_sequences'], 'every value, every point at which the writer can fail or write partially',
  'the tests only write to vectors, which never fail',
  [GEN, VALUE], [('WriterGenerator', GEN), ('PrettyWriterGenerator', GEN)], observe=['calls on the io::Write and the returned io::Result'])
P('C12', 'All serialisers of a value print the same tokens',
  'dump, write, pretty and write_pretty of the same value emit the same sequence of JSON tokens; the compact forms contain no white space '
  'between tokens, and the pretty forms start every element on a line of its own, indented by depth times the requested width.',
  ['inputs', 'configurations'], 'every value and every indentation width',
  'four implementations of one trait must agree for all values; the tests compare a few literals',
  [GEN, VALUE], [('Generator trait and its four implementors', GEN)])
P('C13', 'Equality of values is by content, across representations',
  'A value equals another value, a string, a number, a boolean or an option exactly when it holds the same content: texts are compared by '
  'characters whether short or long, numbers by numeric value, and values of different kinds are never equal.',
  ['inputs', 'programs'], 'every pair of values, every operand type with a comparison, both operand orders',
  'dozens of operator implementations times all kinds of values; tests cover a few cells of that matrix',
  [IMPL, VALUE], [('PartialEq implementations', IMPL), ('partial_eq! macro', IMPL)])
P('C14', 'Integer conversions are exact or refused',
  'Converting an integer to a number or value keeps its exact value, and converting a number or value to an integer type returns the exact '
  'integer when the number is stored as an integer (power of ten zero) within the range of that type and refuses otherwise; nothing wraps, truncates or panics.',
  ['inputs', 'configurations'], 'every integer of every width, every number (sign, mantissa, exponent), debug and release arithmetic',
  'the failing inputs are range boundaries combined with exponents',
  [NUMB, VALUE, IMPL], [('From<integer> for Number', NUMB), ('TryFrom<Number>', NUMB)])
P('C15', 'Number equality and fixed-point views are exact',
  'Two numbers are equal exactly when they denote the same decimal value (NaN equals NaN), and the fixed-point views return the value scaled '
  'by the requested power of ten, truncated towards zero, or nothing when the result does not fit (the unsigned view refuses every negative number, both refuse NaN).',
  ['inputs'], 'every pair of numbers, every requested scale',
  'scaling by powers of ten wraps only for specific mantissa and exponent pairs',
  [NUMB], [('PartialEq for Number', NUMB), ('as_fixed_point_u64 / i64', NUMB)])
P('C16', 'Accessors and predicates report what the value holds',
  'Every predicate (is_*), accessor (as_*), length, emptiness test, membership test, index and iterator of a value reports exactly its kind and '
  'content, and gives the documented neutral answer (none, false, zero, null) for values of other kinds.',
  ['inputs'], 'every value, every index and key',
  'each accessor times each kind of value, including both string representations',
  [VALUE, IMPL], [('JsonValue methods', VALUE), ('Index / IndexMut', VALUE)])
P('C17', 'Mutators change exactly what they name',
  'Push, pop, insert, remove, take, clear and mutable indexing change exactly the addressed element, return what they removed, report a wrong '
  'type without changing the value, and leave every other element as it was.',
  ['inputs', 'histories'], 'every value, every index, key and inserted value',
  'each mutator times each kind of value and each position',
  [VALUE], [('JsonValue mutators', VALUE)])
P('C18', 'Objects behave as a map from keys to values',
  'After any history of insertions, overwrites and removals, looking up a key gives the value stored last under exactly that key, and gives '
  'nothing for keys never inserted or removed since.',
  ['inputs', 'histories'], 'every history of operations, every set of keys (colliding hashes included)',
  'the search tree depends on hashes and on insertion order; tests insert a few keys',
  [OBJF], [('Object::get / insert / remove', OBJF), ('Node left/right links', OBJF)], state=[('store', 'nodes in insertion order, linked as a search tree')])
P('C19', 'Keys of objects stay valid memory they own',
  'A key handed out by an object or used in a lookup always refers to live bytes owned by that entry: growing, cloning, removing from and '
  'moving an object never leaves a key pointing to freed or foreign memory, and every key is freed exactly once.',
  ['histories', 'inputs'], 'every history of insertions, removals, clones and drops, short and long keys',
  'a dangling key pointer usually still reads plausible bytes in a test',
  [OBJF], [('Key { buf, len, ptr }', OBJF), ('Node / Object::clone', OBJF)], state=[('Key.ptr', 'inline buffer or heap copy of the key')])
P('C20', 'Objects list each member once, in insertion order',
  'The iterators of an object give every member exactly once in the order of first insertion, from the front and from the back, and len, '
  'is_empty and clear agree with what the iterators give.',
  ['inputs', 'histories'], 'every object, every interleaving of front and back iteration',
  'order after overwrites and removals depends on the whole history',
  [OBJF], [('Iter / IterMut', OBJF), ('Object::len / clear', OBJF)])
P('C21', 'Short strings never exceed their inline buffer',
  'A text is stored inline only when it fits in the inline buffer, the stored length never exceeds the buffer, and the text read back is exactly the one stored.',
  ['inputs'], 'every text converted to a value, every constructor',
  'the boundary is unchecked arithmetic; a wrong bound reads or writes adjacent memory silently',
  [SHORTF, IMPL, PARSER, VALUE], [('Short::from_slice', SHORTF), ('Short::as_str', SHORTF)])
P('C22', 'Literal macros build their elements in order, each evaluated once',
  'The array and object construction macros build a container with exactly the listed elements or members in the listed order, evaluating '
  'every listed expression exactly once and in order.',
  ['programs'], 'every program that uses the macros with any number of listed elements and any element expressions',
  'double evaluation is only visible for expressions with side effects',
  [LIB], [('array! / object! / value!', LIB)])
P('C23', 'Object equality ignores member order',
  'Two objects are equal exactly when they have the same set of keys and the values under equal keys are equal, whatever the insertion order.',
  ['inputs', 'histories'], 'every pair of objects',
  'tests compare a few literals with the same keys',
  [OBJF], [('PartialEq for Object', OBJF)])
P('C24', 'Public operations do not panic outside of documented cases',
  'No public operation on values, numbers, objects or short strings panics, overflows or indexes out of bounds for any arguments, except '
  'where its documentation says so (formatting precision and out-of-memory aside).',
  ['inputs', 'configurations'], 'every public operation with any arguments, debug and release arithmetic',
  'panics hide at range boundaries of indexes, lengths and exponents',
  [VALUE, NUMB, OBJF, SHORTF], [('all public functions', LIB)])
P('C25', 'Values can be sent to and shared between threads',
  'Values, numbers, objects and errors can be moved to another thread and shared between threads, and reading through a shared reference '
  'never mutates hidden state.',
  ['programs', 'schedules'], 'every program that shares or sends values',
  'absence of data races is not observable by single threaded tests',
  [OBJF, VALUE, NUMB], [('unsafe impl Send / Sync', OBJF)])
P('C26', 'Every string handed out is valid UTF-8',
  'Every string slice, string and key that the library creates (parsed strings, keys, error texts, dumped and pretty printed texts, short strings) is valid UTF-8.',
  ['inputs'], 'every text and every value',
  'the library uses unchecked conversions; invalid UTF-8 is undefined behaviour that tests do not observe',
  [PARSER, GEN, SHORTF, OBJF], [('from_utf8_unchecked call sites', LIB)])
P('C27', 'Decimal printing of binary floats round-trips',
  'A finite binary floating point number converted to a value, printed and parsed again converts back to the same number.',
  ['inputs'], 'every finite f64 and f32',
  '2^64 inputs; correctness rests on the numerical tables of the shortest-digits algorithm',
  [NUMB, 'src/util/grisu2.rs', 'src/util/diyfp.rs'], [('grisu2::convert', 'src/util/grisu2.rs')])
P('C28', 'Printing then parsing a value gives an equal value',
  'Parsing the text printed for any value without NaN gives a value equal to it (strings inside keep their text, objects their members, arrays their order).',
  ['inputs'], 'every value nested less than 512 deep',
  'the composition of two recursive programs over unbounded values',
  [PARSER, GEN], [('Parser::parse', PARSER), ('Generator::write_json', GEN)])
P('C29', 'Reported error positions are the line and column of the error',
  'The line and column of an unexpected character count lines and characters of the text from one up to the offending character.',
  ['inputs'], 'every text that is refused because of a character',
  'positions depend on everything before the error, including multi-byte characters and line breaks',
  [PARSER, ERR], [('Parser::unexpected_character', PARSER)])

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in out:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')

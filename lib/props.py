"""The claimed properties: entry points, specifications, rule."""
from run import Task
import p_dec
import p_emit
import p_ints
import p_macro
import p_parse
import p_share
import p_short
import p_obj
import p_table


def spec_tasks(specs, wrap=None):
    """specs(): {root: spec function or Check}"""
    def tasks(prog):
        out = []
        for root, fn in specs().items():
            out.append(Task(root, lambda fn=fn: (wrap or p_ints.Spec)(fn)))
        return out
    return tasks


def table(specs, numeq=False, extra=()):
    def make(fn):
        t = p_table.Table(fn)
        t.hook_numeq = numeq
        return t

    def tasks(prog):
        out = [Task(root, lambda fn=fn: make(fn)) for root, fn in specs().items()]
        for root, cls in extra:
            out.append(Task(root, cls))
        return out
    return tasks


def parser(cls, kinds):
    def tasks(prog):
        if prog.find_ty(p_parse.BLOCK) is None:
            return [Task('parse', cls, run=lambda prog, t, out: out.update(reason='the parser has no stack of StackBlock'))]
        return [Task('parse', lambda: cls(kinds))]
    return tasks


def strings(prog):
    if prog.find_ty(p_parse.BLOCK) is None:
        return parser(None, ())(prog)
    return [Task('parse', lambda d=d: p_parse.Strings(('string',), d), what) for d, what in DOCS]


DOCS = (('sA', 'arrays of strings'), ('sO', 'objects of strings'), ('s', 'one string'))
GENERATORS = {'gen_dump_json': dict(), 'gen_pretty_json': dict(pretty=True), 'gen_writer_json': dict(writer=True),
              'gen_prettywriter_json': dict(writer=True, pretty=True)}
ENTRIES = {'dump': dict(top=True), 'pretty': dict(top=True, pretty=True), 'write': dict(top=True, writer=True),
           'write_pretty': dict(top=True, pretty=True, writer=True), 'to_writer': dict(top=True, writer=True), 'stringify': dict(top=True),
           'stringify_pretty': dict(top=True, pretty=True), 'object_dump': dict(obj=True), 'object_pretty': dict(obj=True, pretty=True)}


def emission(kinds, strings=True, writers=False):
    def tasks(prog):
        out = []
        for root, how in list(GENERATORS.items()) + list(ENTRIES.items()):
            if writers and not how.get('writer'):
                continue
            if strings and root in GENERATORS and p_emit.writes_text(prog, prog.root(root)) is not None:
                out.append(Task(root, lambda how=how: p_emit.Emit(kinds, string=True, **how), 'one text'))
            out.append(Task(root, lambda how=how: p_emit.Emit(kinds, **how)))
        return out
    return tasks


ABS = ('abstract interpretation of the MIR that the nightly compiler builds from the current tree (debug and release profile): the entry '
       'point and everything it calls in the crate are interpreted over an abstract domain (intervals, finite sets, linear facts, '
       'segmented sequences, lazily expanded inputs) with a fixpoint at loops; ')

PARSING = ABS + ('a monitor of the RFC 8259 grammar (an automaton over the bytes of the text, stepped when the program first reads a byte) runs in the '
                 'ghost state; open containers are abstracted by their depth, completed values wait until the program stores them; ')

def printing():
    def tasks(prog):
        return [Task(root, lambda c=c, root=root: p_dec.Dec(c, 'write' in root), 'exponent %s' % c)
                for root in ('dec_dump', 'dec_pretty', 'dec_write', 'dec_write_pretty') for c in p_dec.classes()]
    return tasks


EMISSION = ABS + ('the bytes handed to the buffer or to the writer drive a monitor in the ghost state that follows the tokens of the value; the recursive call for a '
                  'child counts as the tokens of the child one level deeper (induction over the value), the function that writes one text is analysed apart; ')

PROPS = {
    'C01': dict(
        level='proof', technique='abstract interpretation over MIR with a grammar automaton in the ghost state',
        rule=PARSING + 'a return of Ok requires the automaton to accept at the end of the text, a refusal requires that it has no successor (or that the text ends too early)',
        note='json::parse over all texts of all lengths, both arithmetic profiles',
        assumptions=['the text is valid UTF-8 (type str)', 'a Vec holds at most isize::MAX bytes'],
        tasks=parser(p_parse.Structure, ('grammar', 'refuse'))),
    'C02': dict(
        level='proof', technique='abstract interpretation over MIR with a grammar automaton in the ghost state',
        rule=PARSING + 'on every returned error the kind and the character are compared with the first byte at which the automaton has no successor',
        note='json::parse over all texts of all lengths, both arithmetic profiles',
        assumptions=['the text is valid UTF-8 (type str)', 'a Vec holds at most isize::MAX bytes'],
        tasks=parser(p_parse.Structure, ('error', 'refuse'))),
    'C03': dict(
        level='proof', technique='abstract interpretation over MIR (intervals, linear facts, grammar automaton)',
        rule=PARSING + 'every panic, unchecked access, slice, overflow check and read of the text reachable from the entry point is an obligation',
        note='json::parse over all texts of all lengths, both arithmetic profiles; contents of strings are left out of the state, not their lengths',
        assumptions=['the text is valid UTF-8 (type str)', 'a Vec holds at most isize::MAX bytes', 'allocation succeeds',
                     'operations of Object are used by contract (C18, C24)'],
        tasks=parser(p_parse.Structure, p_parse.Others(*p_parse.SPEC))),
    'C04': dict(
        level='proof', technique='abstract interpretation over MIR with the decoded text of the current string in the ghost state',
        rule=PARSING + 'the automaton decodes every string (escapes, \\u, surrogate pairs) into a segmented text; every slice made into a text, every string '
        'value and every key that the program stores is compared with it',
        note='json::parse over all documents that are one string, or one array or object of strings (keys and values) without nested containers and numbers; '
        'strings of any length and content, any number of elements, both arithmetic profiles',
        assumptions=['the text is valid UTF-8 (type str)', 'a Vec holds at most isize::MAX bytes', 'operations of Object are used by contract (C18)'],
        tasks=strings),
    'C05': dict(
        level='proof', technique='abstract interpretation over MIR with a grammar automaton and a depth counter in the ghost state',
        rule=PARSING + 'the depth error is compared with the depth counter wherever a container is opened or the error is returned',
        note='json::parse over all texts, every depth up to and beyond the limit',
        assumptions=['the text is valid UTF-8 (type str)', 'a Vec holds at most isize::MAX bytes'],
        tasks=parser(p_parse.Structure, ('depth',))),
    'C06': dict(
        level='proof', technique='abstract interpretation over MIR with the mantissa and exponent denoted so far in the ghost state',
        rule=PARSING + 'the number stored for a number token is compared with the sign, mantissa and exponent that the automaton has accumulated digit by digit',
        note='json::parse over all texts, numbers of any length',
        assumptions=['the text is valid UTF-8 (type str)', 'a Vec holds at most isize::MAX bytes'],
        tasks=parser(p_parse.Numbers, ('number',))),
    'C07': dict(
        level='proof', technique='abstract interpretation over MIR with a queue of completed values in the ghost state',
        rule=PARSING + 'every value stored in an array or object, and the value returned, is compared with the queue of values completed by the automaton, their depth, key and position',
        note='json::parse over all texts; containers up to the depth limit',
        assumptions=['the text is valid UTF-8 (type str)', 'a Vec holds at most isize::MAX bytes', 'operations of Object are used by contract (C18)'],
        tasks=parser(p_parse.Structure, ('structure',))),
    'C08': dict(
        level='proof', technique='abstract interpretation over MIR with an automaton of the JSON grammar in the ghost state',
        rule=EMISSION + 'every byte emitted must be one that the grammar allows there, inside of a string no byte at any position is raw that may not be',
        note='4 generators, 9 entry points, every kind of value, objects and arrays of every length, texts of every length, both arithmetic profiles',
        assumptions=['print_dec writes a JSON number (C10)', 'the iterator of an object gives its members (C20)', 'allocation succeeds'],
        tasks=emission(('grammar', 'raw'))),
    'C09': dict(
        level='proof', technique='abstract interpretation over MIR (decoding of the emitted bytes against the text)',
        rule=EMISSION + 'the emitted bytes between two quotes are decoded and compared with the text at an arbitrary position',
        note='4 generators, texts of every length and content, values and keys, both arithmetic profiles',
        assumptions=['allocation succeeds'],
        tasks=emission(('string', 'raw'))),
    'C10': dict(
        level='proof', technique='abstract interpretation over MIR (linear terms over quotients and remainders of the mantissa)',
        rule=ABS + 'loops unrolled (the mantissa loses digits in each round); on every path the bytes written are parsed as a JSON number and the '
        'mantissa, power of ten and sign they denote are compared, as linear terms, with those of the number; every access to the digit buffer is an obligation',
        note='dump, pretty, write and write_pretty of numbers with every mantissa and every exponent (-24 to 24 one by one, the rest as two intervals), a failure at every write, both arithmetic profiles',
        assumptions=['write_all hands over all bytes or reports an error (contract of io::Write)', 'allocation succeeds'],
        tasks=printing()),
    'C11': dict(
        level='proof', technique='abstract interpretation over MIR (typestate of the writer in the ghost state)',
        rule=EMISSION + 'every call of the writer may fail or take a part only; after a failure no call may follow and the result must be that error, success requires the complete text',
        note='both writer generators, write, write_pretty and to_writer, a failure at every call, both arithmetic profiles',
        assumptions=['write_all hands over all bytes or reports an error (contract of io::Write)', 'print_dec passes its bytes and errors on (C10)'],
        tasks=emission(('error',), writers=True)),
    'C12': dict(
        level='proof', technique='abstract interpretation over MIR with an automaton of tokens and layout in the ghost state',
        rule=EMISSION + 'every token must be the next of the value, every line must be indented by depth times width',
        note='4 generators, 9 entry points, every kind of value, every depth and width, both arithmetic profiles',
        assumptions=['the iterator of an object gives its members in their order (C20)', 'the depth of a value is less than 2^40'],
        tasks=emission(('tokens', 'layout', 'grammar'), strings=False)),
    'C13': dict(
        level='proof', technique='abstract interpretation over MIR (one table of operand kinds per comparison operator)',
        rule=ABS + 'on every returning path of every comparison operator the returned truth value is compared with equality of content, '
        'where equality of nested objects and numbers is an uninterpreted symmetric relation (their own properties decide it)',
        note='all 28 comparison entry points, every pair of kinds, all paths; equality of nested containers enters by induction',
        assumptions=['equality of objects and of numbers is used by contract (C23, C15)', 'texts of Short values are valid and within their buffer (C21, C26)'],
        tasks=table(p_table.specs_eq, numeq=True)),
    'C14': dict(
        level='proof', technique='abstract interpretation over MIR (intervals and linear facts over mantissa, exponent, category)',
        rule=ABS + 'on every returning path of every integer conversion the result is compared with the mathematical value of the argument',
        note='every conversion in both directions, all paths, both arithmetic profiles; floats excluded',
        assumptions=[], tasks=spec_tasks(p_ints.specs_conversions)),
    'C15': dict(
        level='proof', technique='abstract interpretation over MIR (case split over powers of ten)',
        rule=ABS + 'on every returning path the result is compared with the exact decimal value',
        note='number equality, as_fixed_point_u64/i64 and the value-level views, all mantissas, exponents and categories',
        assumptions=[], tasks=spec_tasks(lambda: dict(p_ints.specs_numeq(), **p_ints.specs_fixed()))),
    'C16': dict(
        level='proof', technique='abstract interpretation over MIR (one table of kinds per accessor)',
        rule=ABS + 'on every returning path the returned value is compared with the documented answer for the kind and content of the receiver',
        note='22 accessors and the membership test, every kind of value; lookups in objects by contract (C18)',
        assumptions=['operations of Object are used by contract (C18, C20)'],
        tasks=table(p_table.specs_access, extra=(('contains', p_table.Contains),))),
    'C17': dict(
        level='proof', technique='abstract interpretation over MIR (pre-state and post-state of every mutator)',
        rule=ABS + 'on every returning path the post-state of the receiver and the returned value are compared with the documented effect on the pre-state',
        note='20 mutators and constructors, every kind of value, every index; operations of objects by contract (C18)',
        assumptions=['operations of Object are used by contract (C18, C20)'],
        tasks=table(p_table.specs_mutate)),
    'C21': dict(
        level='proof', technique='abstract interpretation over MIR (intervals and linear facts over lengths, segmented sequences)',
        rule=ABS + 'every access to the inline buffer is an obligation; on every returning path the stored length is compared with the '
        'capacity and the stored text with the one given',
        note='every entry point that makes, reads, copies or converts an inline string, texts of every length and content, both arithmetic profiles',
        assumptions=['Short::from_slice is unsafe and public: its callers pass at most as many bytes as fit (the callers in the crate are checked)'],
        tasks=p_short.tasks),
    'C22': dict(
        level='other', technique='abstract interpretation over MIR of macro expansions with an evaluation log in the ghost state',
        rule=ABS + 'each witness expands a macro with expressions whose evaluation is visible; the log must list them once each in the order of the source, '
        'and the container that is returned must hold exactly what is listed',
        note='30 expansions that use every rule of array!, object! and value!: 0 to 6 elements, with and without trailing comma, nested, every form of key and value; '
        'longer lists use the same rules again',
        assumptions=['operations of Object are used by contract (C18)'],
        tasks=lambda prog: [Task(r, lambda r=r: p_macro.Macro(r)) for r in p_macro.WANT]),
    'C25': dict(
        level='proof', technique='compile-time witness (trait bounds), query over the type graph, and a pointer provenance lint over MIR',
        rule='harness/threads.rs builds only if JsonValue, Number, Object, Short and Error are Send and Sync; no UnsafeCell is reachable from these types through fields, '
        'type arguments or pointers, nor from the type of any local of a function of the crate; no function uses a mutable static; '
        'no pointer cast from shared to mutable is written through in the function that casts',
        note='5 types, every function of the crate that the entry points reach',
        assumptions=['raw pointers inside of Object are used by contract (C19)'],
        tasks=lambda prog: [Task('threads', None, g, run=r) for g, r in (('witness', p_share.witness), ('types', p_share.types), ('casts', p_share.casts))]),
    'C18': dict(
        level='proof', technique='abstract interpretation over MIR: steps of the search over a symbolic node array, effects against a specification',
        rule=ABS + 'the nodes of the object are symbolic; at each node that a search visits, the key is the one looked for, or its hash is smaller, larger, or equal with another key. '
        'Every operation must visit the nodes along one chain of links, follow for each case the link that lookups follow, stop only at an empty link or at the key, '
        'and then change exactly what the operation names; removal must insert all other members, in order, into an empty object',
        note='lookup, mutable lookup, insertion (also the one that the parser uses), removal and overriding; both when the store grows and when it does not; '
        'by induction over the history: a node is hung where the search for its key ends, links change from empty only, so the search for a stored key ends at its node',
        assumptions=['the hash is a function of the bytes of the key (hash_key is called with the key only; the analysis uses no other property of it)',
                     'links stay within the store and are acyclic (each is set once, to the index of the node appended then)'],
        weight=lambda t: {'object_insert': 4, 'insert_index': 3, 'object_remove': 5}.get(t.root, 0),
        tasks=p_obj.tasks(p_obj.SEARCH, p_obj.DIRECT, p_obj.STORE)),
    'C20': dict(
        level='proof', technique='abstract interpretation over MIR against a specification of the sequence of members',
        rule=ABS + 'iterators must cover exactly the store from front to back, each step from either end must give the key and the value of the member next to the end '
        'and move that end by one; len, is_empty and clear must agree with the length of the store; insertion must append or keep the place, removal must keep the order of the others',
        note='13 operations over a symbolic store with keys of any length',
        weight=lambda t: {'object_insert': 4, 'insert_index': 3, 'object_remove': 5}.get(t.root, 0),
        tasks=p_obj.tasks(p_obj.LIST, {k: 1 for k in ('object_insert', 'object_remove')})),
    'C23': dict(
        level='proof', technique='abstract interpretation over MIR with a log of the lookups in the ghost state',
        rule=ABS + 'equality must hold exactly if the sizes agree and the lookup of every key of one object in the other finds a value that equals the value of the key',
        note='two symbolic objects of any size; the lookup is used by contract (C18), keys within one object are distinct',
        assumptions=['lookup is decided by C18'],
        tasks=p_obj.tasks(p_obj.EQ)),
}

"""What decides each property: analysis roots, the rules that count, structural analyses, and what is assumed."""
import os
AI = 'trace-partitioned abstract interpretation of the compiler\'s MIR (relational numeric domain, loop fixpoints)'
TB = ['the analyser in /verif/engine (transfer functions, loop inference and its summaries of core, alloc and zerocopy functions)', 'the MIR produced by rustc for the library, with overflow checks on',
      'loop counters that start below 2^32 and grow by at most one per iteration stay below 2^62 on a 64-bit machine', 'no allocation is larger than isize::MAX bytes']
PLAN = {}
def p(id, title, **k):
    k.setdefault('technique', AI); k.setdefault('level', 'other'); k.setdefault('level_note', 'Sound for all inputs relative to the stated assumptions: every obligation is discharged by the abstract state in front of it, for every byte slice; nothing is executed and no input is bounded. Trusted: ' + '; '.join(TB[:2]) + '.')
    k.setdefault('explanation', 'Each obligation of the contract programs harness/src/' + id.lower() + '.rs (the property stated over the public API and the hive bytes, for an arbitrary hive) is discharged when the abstract state in front of it implies it.'); k.setdefault('assumptions', TB); k.setdefault('rules', {'check'}); k['rules'] = set(k['rules'])
    PLAN[id] = dict(title=title, **k)
p('C01', 'no panic, out-of-range access or overflow', roots=['c01'], rules=['panic', 'overflow', 'ub', 'unreachable', 'unmodelled'],
  explanation='Every panicking construct (assertion, overflow check, unwrap, slice index, split, unreachable) reachable from each public operation on an arbitrary byte slice is an obligation; it is discharged when the abstract state in front of it excludes it.')

C01_ROOTS = [l.split('(')[0].split()[-1] for l in open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness/src/c01.rs')) if l.startswith('pub fn ') and '()' in l and 'hive()' not in l]
p('C02', 'no panic or overflow with a 32-bit usize', roots=['c01::' + r for r in C01_ROOTS if r != 'subkeys_count'], ptrw=[32], rules=['panic', 'overflow', 'ub', 'unreachable', 'unmodelled'],
  assumptions=TB[:2] + ['no allocation is larger than isize::MAX bytes of the 32-bit machine', 'the default Iterator::count over an index root is not analysed at 32 bits (its counter stays below 2^32 because at most 65535*65535 entries exist)'],
  explanation='As C01, with usize, isize and all their operations interpreted at 32 bits.')
p('C03', 'termination', roots=['c01'], rules=['term'],
  explanation='Every loop of the library (and of core, alloc and zerocopy functions it calls) reachable from a public operation needs a ranking: an integer expression over the loop-head state that is bounded below and decreases on every iteration, or an acyclic head-to-head step relation. Recursion over on-disk data is reported.')
for i, t in (('C04', 'base block validation'), ('C05', 'cell validation'), ('C06', 'signatures'), ('C07', 'key and class names'), ('C08', 'value data'), ('C09', 'typed value accessors'), ('C11', 'subkey lookup'), ('C12', 'value lookup'), ('C13', 'iteration completeness'), ('C14', 'iterator shortcuts'), ('C15', 'name comparison'), ('C16', 'upper-case mapping'), ('C18', 'clearing writes only volatile counts'), ('C19', 'clearing is complete'), ('C20', 'error propagation'), ('C21', 'truthful errors'), ('C27', 'handle equality'), ('C28', 'cost of subkey lookup')): p(i, t, roots=[i.lower()])

NA = {
 'C29': 'The statement compares with the Windows registry implementation and with the set of files Windows produces; neither exists as source here, so no static argument can relate the code to them. (The properties C04 to C13 decide the format rules that are stated in this repository.)',
 'C30': 'The statement is about the text an example binary prints for a whole hive: indentation, order and completeness of output over an unbounded recursive tree. The library part (iteration visits everything, failures are reported) is decided as C13 and C20; equality of printed output with a tree is not reachable by the static analyses built here.',
}

ST = 'rules over the type-checked crate (compiler facts: types, resolved references, call graph)'
WIT = ['the compiler (its type checker, borrow checker and trait solver), and the facts the analyser extracts from it']
def s(id, title, technique, note, expl, **k):
    p(id, title, technique=technique, structural=['structural'], assumptions=k.pop('assumptions', WIT), level_note=note, explanation=expl, **k)
s('C22', 'borrowing', 'type-level witnesses (client programs that must or must not compile) and rules over the type-checked crate',
  'Without unsafe code and shared mutability (checked) the compiler rejects every client program in which a handle outlives what it borrows; the client programs decide, generically in the byte type, that the borrows in the public signatures are exactly as long as stated.',
  'Each client program is compiled against the current library; the ones the property allows must compile, the ones it forbids must be rejected by the borrow checker and for no other reason.')
s('C23', 'safe, stateless, thread-shareable', ST + ' and Send/Sync witnesses',
  'All bodies, types and statics of the crate in every feature configuration, with every reference resolved; effects of functions in core, alloc, zerocopy and bitflags are taken from their defining module.',
  'No unsafe code outside the expansions of known macros, no static or type with interior mutability or raw pointers behind it, no reference to std or to effectful or address-dependent functions, and every public type is Send and Sync for an arbitrary Send and Sync byte type.')
s('C24', 'no_std and no allocation', ST + ' and feature-matrix client programs',
  'Call graph over resolved references, with calls to trait methods of local types through library functions over-approximated by the traits the library function asks for; every feature configuration is type-checked.',
  'With default features off nothing refers to std or alloc; with alloc or std on, every public function from which an allocation is reachable returns something owned (or is error formatting).')
s('C25', 'endianness and alignment', ST + ' with abstract interpretation of the offsets read',
  'All types made from hive bytes and every resolved reference; the analysis roots decide which offset each field is read from.',
  'Every type viewed in hive bytes has alignment one and only bytes and little-endian integers in it; nothing uses a native- or big-endian conversion; the field values the library computes are those of little-endian reads at the offsets of the format (contracts C04 to C08).',
  roots=['c04', 'c05', 'c07', 'c08'], assumptions=WIT + TB[:2])

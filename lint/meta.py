"""Titles and explanations, read from properties.jsonl and DESIGN.md's summary below."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TITLES = {}
_p = os.path.join(ROOT, 'properties.jsonl')
if os.path.exists(_p):
    for _l in open(_p):
        if _l.strip():
            _o = json.loads(_l)
            TITLES[_o['id']] = _o['title']

_SHAPE = ('The library is compiled to LLVM IR and its functions are interpreted abstractly from contracts: integers are '
          'linear expressions with polyhedral constraints over the full 64-bit range, characters are symbols related by an order/equality predicate, '
          'heap objects are records with symbolic fields, and every branch the abstraction cannot decide is followed both ways. '
          'Each obligation is a contract clause on one abstract path; it is discharged when the path condition entails it. ')
_TR = ('Contracts cover one state transition for every position, state, characteristic vector and distance bound (all unbounded), '
       'the search driver is checked as an inductive step of its traversal invariant, and lists of positions are enumerated up to the stated length.')
_DI = ('The dictionary graph shapes are enumerated up to the stated term counts and lengths with symbolic characters, so that each instance covers every alphabet and every equality/order pattern.')
EXPLAIN = {}
for _k in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C08'):
    EXPLAIN[_k] = _SHAPE + _TR
for _k in ('C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C20', 'C21'):
    EXPLAIN[_k] = _SHAPE + _DI
EXPLAIN['C07'] = _SHAPE + 'Every write and free on every abstract path of a reading operation is checked to touch only objects that operation created (effect analysis); a scan of the IR finds writes to mutable objects of static lifetime.'
EXPLAIN['C15'] = _SHAPE + 'Every stream call may succeed or fail; the value returned is compared with the outcomes along the path.'
EXPLAIN['C19'] = _SHAPE + 'Serialized messages are abstract records whose identifiers are symbols: every way of dropping or dangling a part is followed.'
EXPLAIN['C16'] = _SHAPE + 'The distance functions are interpreted on words with symbolic characters, the recurrence they call being the inductive hypothesis on shorter words.'
EXPLAIN['C17'] = _SHAPE + 'Lockset analysis: every access to a location that is shared and written by some path must hold one common lock in the right mode; no lock is held on return or across the recursion.'
EXPLAIN['C18'] = 'Compile-fail witnesses: for each class whose destructor frees something, a generated static assertion asks whether it can be copied or moved memberwise; a positive control must fail to compile for the run to count.'
TRUST = ['clang 18 lowers the sources to LLVM IR faithfully at -O0',
         'the models of the C++ standard library, protobuf and pthread entry points in lint/models.py',
         'the entailment procedure (Fourier-Motzkin elimination) in lint/lin.py',
         'the order/equality abstraction of characters and the size limits of the enumerated shapes listed in the evidence',
         'memory allocation succeeds and no exception is thrown by the standard library']

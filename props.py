"""The claimed properties and how each is decided."""

import lints

SOLV = [("solver.cpp", ())]
CORE = [('core.cpp', ()), ('linalg.cpp', ()), ('signal.cpp', ()), ('base.cpp', ())]
ARR = [('array.cpp', ())]
SETS = [('sets.cpp', ())]
COMM = [('comm.cpp', ())]
RND = [('random.cpp', ())]
FFT = [('fft.cpp', ())]
SRCH = [('search.cpp', ())]
DRAW = [('draw.cpp', ())]
MODEM = [('modem.cpp', ())]
TALLY = [('tally.cpp', ()), ('tally.cpp', ('SUSA_NASSERT',))]
FAULT = [('faults.cpp', ()), ('faults.cpp', ('SUSA_NASSERT',))]
MIS = [('misuse.cpp', ()), ('misuse_off.cpp', ('SUSA_NASSERT',))]
SVD = [('svd.cpp', ())]
ALL = CORE + ARR + SETS + SOLV + COMM + FFT + SRCH + DRAW + MODEM + SVD
MEM = {'bounds', 'null', 'use-after-free', 'bad-pointer', 'uninit-pointer'}
FREE = {'bad-free', 'double-free', 'dealloc-size', 'leak', 'use-after-free'}

AI = 'Abstract interpretation of every specification scenario over the resolved syntax tree of the current source; loops are summarised for all trip counts, sizes and element values are symbolic. '

PROPS = {
    'P01': dict(units=ALL + FAULT[:1], scenarios='*', kinds=MEM, level='other', explanation=AI + 'Obligation: every load, store, memcpy range and index made by the library stays inside the live storage block it addresses.'),
    'P02': dict(units=ALL + FAULT, scenarios='*', kinds=FREE, level='other', explanation=AI + 'Obligation: every block is released exactly once, with the size it was requested with, and none is reachable-but-unreleased at the end of a scenario.'),
    'P03': dict(units=ALL, scenarios=('P03',), level='other', explanation=AI + 'Obligation: copies and assignments yield equal, independent containers; self-assignment and moved-from containers stay valid.'),
    'P05': dict(units=ALL, scenarios=('P05',), level='other', explanation=AI + 'Obligation: each element of the result equals the operation applied to the corresponding elements.'),
    'P06': dict(units=ALL, scenarios=('P06',), level='other', explanation=AI + 'Obligation: each element of the rearranged matrix is the documented element of the argument.'),
    'P07': dict(units=ALL, scenarios=('P07',), level='other', explanation=AI + 'Obligation: reductions fold exactly the documented elements, in every shape.'),
    'P08': dict(units=ALL, scenarios=('P08',), level='other', explanation=AI + 'Obligation: each element of the product / filter output equals its defining sum.'),
    'P09': dict(units=[('linalg.cpp', ())] + SOLV, scenarios=('P09',), level='other', explanation=AI + 'Obligation: the factors multiply back to the matrix, the solution satisfies the system and the determinant equals its expansion; the decompositions are analysed at fixed orders with symbolic elements.'),
    'P10': dict(units=FFT, scenarios=('P10',), level='other', explanation=AI + 'Obligation: every output of the transform equals the defining sum; roots of unity are handled exactly.'),
    'P11': dict(units=MIS, scenarios=('P11',), level='other', explanation=AI + 'Obligation: no path gets past the misuse (a failing assertion is the required outcome, and no memory obligation fails before it); with assertions compiled out the remaining guards keep every element unchanged.'),
    'P12': dict(units=RND, scenarios=('P12',), level='other', explanation=AI + 'Obligation: every output word equals the one of the MT19937 recurrence written down in the scenario, as bit-vector functions of the symbolic seed.'),
    'P13': dict(units=DRAW, scenarios=('P13',), level='other', explanation=AI + 'Obligation: every drawn value equals the documented function of the successive generator words, which are symbolic.'),
    'P14': dict(units=MODEM, scenarios=('P14',), level='other', explanation=AI + 'Obligation: constellation, decision, noise and filter taps equal their definitions; orders and lengths are fixed per analysis, received values, levels and samples symbolic.'),
    'P15': dict(units=SETS, scenarios=('P15',), level='other', explanation=AI + 'Obligation: membership after each operation equals that of the mathematical set.'),
    'P16': dict(units=COMM, scenarios=('P16',), level='other', explanation=AI + 'Obligation: the trellis functions, the encoder and the a posteriori decoder of a convolutional code agree with the shift register its generators describe; memory, number of generators and lengths are fixed per analysis, states, data bits and received samples symbolic (bit-level decision diagrams, rational normal forms).'),
    'P17': dict(units=COMM, scenarios=('P17',), level='other', explanation=AI + 'Obligation: the trellis functions, the output and both decoders of a channel agree with the tapped delay line its taps describe; numbers of taps, symbols and samples are fixed per analysis, taps, amplitudes and samples symbolic.'),
    'P22': dict(units=SRCH, scenarios=('P22',), level='other', explanation=AI + 'Obligation: order, permutation, selection, membership and shortest-path conditions, for every order of the symbolic elements at the given sizes.'),
    'P18': dict(units=CORE, scenarios=('P18',), level='other', explanation=AI + 'Obligation: the value equals the documented closed form on both sides of zero.'),
    'P20': dict(units=TALLY, scenarios=('P20',), level='other', explanation=AI + 'Obligation: after every operation the tally differs from its value before by exactly the bytes of the blocks alive in between, also when any allocation fails; nothing is leaked.'),
    'P21': dict(units=CORE, scenarios=('P21',), level='other', explanation=AI + 'Obligation: the helper returns the exact integer.'),
    'P19': dict(lints=[lints.usable], level='other', explanation='Type-level witness: every public operation is used with every supported element type and allocator in witness/api.cpp, which is type-checked (never run) against the current headers in the default, log-free and assertion-free configurations; a construct of the library that fails to type-check is the violation.'),
    'P23': dict(lints=[lints.shared], level='other', explanation='Effect analysis over every function body and template instantiation (witness/api.cpp instantiates the public operations with all element types): writes are traced through pointers, references, aliases and callees to static variables, to the object of a const member function and to operands received as constant; atomics are checked for split read-modify-write; calls of C functions with hidden static state are reported.'),
}

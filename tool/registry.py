"""Texts of the properties: the source of properties.jsonl and MANIFEST.json (tool/gen.py)."""
AI = 'abstract interpretation of the type-checked AST (symbolic sizes and elements, loops summarised for all trip counts)'
NOTE = 'Every obligation is either proved for all sizes and values, refuted with a concrete witness size, or left undecided (silent, counted in the evidence). Trusts the clang front end, the analyser and its models of the standard library; sizes below 2^31, reals for floating point, no NaN.'


def prop(id, title, statement, over, qtext, why, files, mech, technique=AI, level='other', note=NOTE, na=None):
    return dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                technique=technique, level=level, note=note, na=na)


CONT = ['inc/susa/matrix.h', 'inc/susa/array.h', 'inc/susa/memory.h', 'src/sets.cpp']
R = [
prop('P01', 'No operation touches memory outside the storage of its operands',
     'Every element read or written by a container or by a numerical routine of the library lies inside the live storage of the object it belongs to, for every shape (row, column, rectangular, 1x1, empty) and every in-range index. No routine dereferences a null, uninitialised or already released pointer.',
     ['inputs', 'histories'], 'every matrix/array/set size, every valid index, every element value, and every sequence of copy, assign, move, resize and compute operations covered by a scenario',
     'The tests use a handful of fixed small shapes; an index error that only appears for another aspect ratio, a vector orientation or a one-element operand is never exercised, and would not fail an assertion when it is.',
     CONT + ['inc/susa/linalg.h', 'inc/susa/signal.h', 'inc/susa/base.h', 'inc/susa/solver.h', 'src/base.cpp'],
     [('index arithmetic and range guards of element access', 'inc/susa/matrix.h'), ('loop bounds of the numerical kernels', 'inc/susa/linalg.h, inc/susa/signal.h')]),
prop('P02', 'Every piece of storage is released exactly once, with its own size',
     'Each block of memory the library obtains is released exactly once, through the matching release call and with the size it was requested with, on every path including self-assignment, assignment between objects of different sizes, moves and empty objects. Nothing is leaked, released twice, or used after release.',
     ['inputs', 'histories'], 'every size of the objects involved and every sequence of construct, copy, assign, move, resize and destroy in the scenarios',
     'The tests never check the allocator; a leak, a mismatched release size or a double release in a rarely used path passes silently.',
     CONT, [('allocate/deallocate and the ownership transfer in copy/move operations', 'inc/susa/memory.h, inc/susa/matrix.h, inc/susa/array.h')]),
prop('P03', 'Copies are deep and equal; self-assignment and moves leave valid objects',
     'Copying or assigning a matrix, array, set or raw storage block gives an object with the same shape and elements that shares no storage with its source, whatever the previous size of the target and also when source or target is empty. Assigning an object to itself keeps it unchanged; moving transfers the contents, and the moved-from object is empty and can be destroyed, assigned to and copied.',
     ['inputs', 'histories'], 'every size of source and target, every element, every order of these operations in the scenarios',
     'Tests copy one or two matrices of one size; they do not write through one copy and look at the other, and do not combine moves, empty objects and self-assignment.',
     CONT, [('copy/move constructors and assignment operators', 'inc/susa/matrix.h, inc/susa/array.h, inc/susa/memory.h')]),
prop('P05', 'Element access, comparison and element-wise operations act element by element',
     'Element (i,j) of a matrix (and element (i,j,k,...) of a multi-dimensional array, first index fastest) is one storage cell, seen identically through every access form, and writing it changes no other element. Arithmetic between matrices of equal shape and between a matrix and a scalar, the compound assignments, conversions between element types, and the element-wise functions (abs, sign, log, conj, real, imag, ...) yield in every position exactly the scalar operation on the elements at that position, also when operands alias. Two matrices compare equal exactly when shapes and all elements agree.',
     ['inputs'], 'every shape, every index and every element value of integer, real and complex matrices',
     'Tests compare a few literal matrices; an operation that mixes up one position, one shape class or one aliased operand survives them.',
     ['inc/susa/matrix.h', 'inc/susa/array.h', 'inc/susa/base.h', 'src/base.cpp'],
     [('operators and element access', 'inc/susa/matrix.h'), ('element-wise functions', 'inc/susa/base.h')]),
prop('P06', 'Rearranging operations put every element where documented',
     'Transpose, horizontal and vertical flip, concatenation of matrices agreeing in a dimension, identity, row/column extraction and replacement, row/column swap, the left/right/middle part, shrink, reshape, and replacing the data of an array move or copy each element to exactly its documented position, give the documented shape, and change no other element.',
     ['inputs'], 'every shape, position and element value',
     'Tests check one or two literal shapes, mostly square; off-by-one positions for other shapes are not reached.',
     ['inc/susa/matrix.h', 'inc/susa/linalg.h', 'inc/susa/array.h'],
     [('index mapping of the rearranging operations', 'inc/susa/matrix.h, inc/susa/linalg.h')]),
prop('P07', 'Reductions fold exactly the documented elements',
     'The sum, mean, norm, minimum, maximum and difference of a vector (either orientation) is taken over all of its elements and nothing else, and that of a matrix over each column separately; single-element and single-row operands follow the same rule.',
     ['inputs'], 'every shape and element value (real arithmetic)',
     'Tests use a few positive literals; a wrong start value, a skipped first or last element or a wrong orientation dispatch depends on signs and shapes they do not use.',
     ['inc/susa/base.h'], [('the reduction loops and their dispatch on shape', 'inc/susa/base.h')]),
prop('P08', 'Products, filters and convolutions equal their defining sums',
     'Matrix product, Kronecker product, Toeplitz and convolution matrices, FIR and IIR filtering, convolution, up-sampling and down-sampling give a result of the documented size whose every element equals its textbook definition.',
     ['inputs'], 'every compatible pair of shapes, every factor, every output element (real arithmetic)',
     'Tests use one literal example each; edge taps, other shapes, other orientations and one-sample operands are not covered.',
     ['inc/susa/linalg.h', 'inc/susa/signal.h'], [('the product and convolution loops', 'inc/susa/linalg.h, inc/susa/signal.h')]),
prop('P09', 'Decompositions, solvers and determinants are algebraically correct',
     'When a decomposition reports success, its factors have the documented triangular form, no pivot that is divided by is zero, and their product is the (row-permuted) matrix; then the computed solution satisfies the linear system and the computed inverse multiplies with the matrix to the identity. The decomposition reports failure when no usable pivot exists. The determinant equals the Laplace expansion and is zero for a non-square matrix.',
     ['inputs'], 'every element value (real arithmetic) of square matrices, including singular and pivot-requiring ones: decompositions and solutions at orders one to three (triangular factors without row exchange to four, triangular systems to seven), determinants to order five',
     'Tests decompose one or two literal matrices; zero pivots, row exchanges in late columns and one-by-one systems are not covered.',
     ['inc/susa/solver.h', 'inc/susa/linalg.h'], [('elimination, pivoting and substitution loops', 'inc/susa/solver.h'), ('cofactor expansion', 'inc/susa/linalg.h')],
     technique='abstract interpretation of the type-checked AST with symbolic elements at fixed matrix orders (loops unrolled, rational-function normal form)'),
prop('P10', 'Discrete Fourier transforms equal their definition',
     'The direct discrete Fourier transform of a vector (either orientation) of any length, and of every column of a matrix, is the defining sum of the samples times the roots of unity, forward (exponent minus two pi i k n / N) and unscaled; the radix-2 transform gives the same values for lengths that are powers of two.',
     ['inputs'], 'every length and sample value for the direct transform (real arithmetic), every sample value at lengths one to sixty-four and every pair of samples among zeros at lengths up to 256 for the radix-2 transform',
     'Tests transform one literal vector; other lengths, orientations and several columns are not covered.',
     ['inc/susa/fft.h'], [('transform loops, bit reversal and butterflies', 'inc/susa/fft.h')],
     technique='abstract interpretation of the type-checked AST (symbolic samples; exact arithmetic at roots of unity)'),
prop('P11', 'Misuse is stopped before it reaches memory',
     'With assertions enabled each of the following ends in a failing assertion before anything outside of the operands is read or written: access to a matrix element outside of its dimensions or to an array position outside of its storage, in every access form, access to an element of an empty matrix, a zero dimension in construction or resizing, element-wise operations and products of incompatible shapes, reshaping to another number of elements, extraction, replacement and exchange of rows or columns out of range, taking more elements or columns than there are with left, right, mid or shrink, selecting at least as many elements as there are, vector-only routines on a matrix, decomposing a non-square matrix, a radix-2 transform of another length, and unsupported code parameters or filter orders. With assertions compiled out, out-of-range reads and writes through the access operators, row and column extraction, left, right, mid and shrink out of range, rejected row and column replacement or exchange and in-place operations of mismatched shapes touch no memory outside of the operands and leave every element as it was.',
     ['inputs'], 'every shape, every index out of range and every pair of mismatched shapes',
     'An assertion failure ends the test program, so no test provokes one; a guard that is off by one or misses one of two conditions is invisible until the memory behind it is corrupted.',
     ['inc/susa/matrix.h', 'inc/susa/array.h', 'inc/susa/linalg.h', 'inc/susa/search.h', 'inc/susa/fft.h', 'src/ccode.cpp'],
     [('range guards and assertions', 'inc/susa/matrix.h, inc/susa/array.h')]),
prop('P12', 'The random number generators produce the Mersenne Twister sequence of their seed',
     'For every seed the word sequence of both generator classes is that of the reference MT19937 algorithm: same initialisation recurrence, same regeneration of all 624 words in time, same tempering. A default-constructed generator behaves as one with the reference default seed 5489. Seeding again restarts the sequence of the new seed whatever was drawn before; a copy continues the same sequence independently of the original.',
     ['inputs', 'histories'], 'every 32-bit seed; outputs 0 to 639 and 1244 to 1251 of the sequence (all of the first regeneration and the boundary of the next ones)',
     'Tests check no generated word; a wrong constant, twist index or reseed shows up for no sampled statistic.',
     ['inc/susa/rng.h', 'src/rng.cpp', 'inc/susa/mt.h', 'src/mt.cpp'], [('initialisation, twist and tempering', 'src/rng.cpp, src/mt.cpp')],
     technique='abstract interpretation of the type-checked AST with a symbolic seed (bit-vector terms, loops unrolled, branches merged)'),
prop('P13', 'Random draws are the documented functions of the generated words, in order',
     'Each uniform draw is the next 32-bit word divided by 2^32 - 1, so between 0 and 1; masked draws are the word and the mask, matrix and vector draws have the requested shape and use successive words in storage order and no more; bernoulli draws are the lowest bit or, with a probability, one exactly when the draw does not exceed it; bounded integers lie between 1 and the maximum; weighted draws return an index in range whose probability interval contains the draw; Gaussian draws are the polar method applied to successive uniform pairs, rejecting those outside the unit disc.',
     ['inputs', 'histories'], 'every word the generator may produce, every mask, maximum, probability; one to four draws per call, two or three weights (real arithmetic)',
     'Tests look at a few sampled averages; a value at the edge of the range, a skipped word or an odd length is not noticed.',
     ['inc/susa/rng.h', 'src/rng.cpp', 'inc/susa/mt.h', 'src/mt.cpp'], [('drawing functions', 'src/rng.cpp, src/mt.cpp')],
     technique='abstract interpretation of the type-checked AST at fixed draw counts with symbolic generator words (rational forms, bit-level facts, exact linear certificates)'),
prop('P14', 'Modulation, noise and pulse shaping follow their definitions',
     'A square constellation of order 4, 16, 64 or 256 is the unit-spaced grid centred at the origin, each point once; demodulation returns a nearest point, in particular the sent one for any displacement below half of the spacing; the noise deviation is the square root of half the noise density for the given energy per bit. White noise for a signal has the shape of the signal and consists of successive Gaussian draws scaled to the documented deviation. The root-raised cosine taps are the inverse transform of the sampled response for every odd order: symmetric, of unit energy, positive in the centre.',
     ['inputs'], 'every received value, noise level and signal value (real arithmetic); orders 4 to 256 (nearest point: 4, recovery: 4 to 64), signals up to three samples, filters up to seven taps, interpolation factors one to three and four roll-off factors',
     'Tests do not touch constellations, demodulation, noise scaling or the filter taps.',
     ['inc/susa/modulation.h', 'src/modulation.cpp', 'inc/susa/rrcosine.h', 'src/rrcosine.cpp'], [('constellation, decision and noise level', 'src/modulation.cpp, inc/susa/modulation.h'), ('frequency sampling', 'src/rrcosine.cpp')],
     technique='abstract interpretation of the type-checked AST at fixed orders with symbolic samples (exact trigonometry and radicals, linear certificates)'),
prop('P15', 'The bit set behaves as a mathematical set of indices below its size',
     'After any insertion, removal, fill, clear or pop, an index is reported as a member exactly when it was inserted (or filled) and not removed since; indices at or beyond the size are never members and inserting or removing them has no effect; the emptiness query and the pop operation agree with membership, pop returning the smallest member and removing only it, or the size if there is none.',
     ['inputs', 'histories'], 'every set size and every index, and the operation sequences in the scenarios',
     'No test touches the set type.',
     ['inc/susa/sets.h', 'src/sets.cpp'], [('byte/bit addressing of the members', 'src/sets.cpp')]),
prop('P16', 'The convolutional code realises the shift register its generators describe',
     'The state transition, the predecessor states, the output of a transition and the encoder of a convolutional code agree with the shift register given by its memory and its octal generators, encoding always starts from the zero state, the rate is the ratio of inputs to outputs, bit counting is exact, and the a posteriori decoder returns for every data bit the exact ratio of the total weights of the zero-terminated code paths carrying a one and a zero there.',
     ['inputs'], 'every state, data bit, generator and received sample (real arithmetic); memories up to ten for the state transitions, up to three with up to three outputs and four data bytes for the outputs and the encoder (up to twenty and eight data bytes for chosen generators), up to two with three trellis steps for the decoder, and up to three with five steps when all but one sample are given whole numbers',
     'The test decodes one literal sequence with one code; other memories, generators, start states and sample values are not covered.',
     ['inc/susa/ccode.h', 'src/ccode.cpp'], [('trellis functions and octal generators', 'src/ccode.cpp'), ('forward-backward recursion', 'inc/susa/ccode.h')],
     technique='abstract interpretation of the type-checked AST at fixed code sizes (symbolic states, bits and samples; bit-level decision diagrams and rational normal forms)'),
prop('P17', 'Channel trellis, encoder and decoders agree with the tapped delay line',
     'For an inter-symbol interference channel with at least two taps, the next state, predecessor states and output of a transition, and the encoded signal (with the given initial and the same final state) are those of the tapped delay line holding the most recent symbols. The a posteriori decoder of a binary alphabet returns for every position the exact ratio of the total weights of the zero-terminated paths sending the second and the first symbol, and the maximum-likelihood sequence decoder with known initial state returns a sequence of least squared distance. Antipodal modulation maps zero to minus one and every other value to one.',
     ['inputs'], 'every tap, amplitude, state and received sample (real arithmetic); up to seven taps with two symbols or four taps with up to four (trellis), five samples (encoder), three taps and three samples (a posteriori decoder), two taps and three symbols, or given taps and up to six symbols with one disturbed sample (sequence decoder)',
     'The tests decode one literal sequence; other channels, alphabets, states and noise values are not covered.',
     ['inc/susa/channel.h', 'inc/susa/modulation.h', 'src/modulation.cpp'], [('state numbering of the trellis', 'inc/susa/channel.h'), ('decoder recursions', 'inc/susa/channel.h')],
     technique='abstract interpretation of the type-checked AST at fixed channel sizes (symbolic taps, amplitudes and samples; rational normal forms)'),
prop('P18', 'The normal distribution function is the documented approximation everywhere',
     'For every real argument, negative and positive, the normal distribution function equals the Abramowitz-Stegun rational approximation 26.2.17 (whose absolute error is below 7.5e-8), its values at opposite arguments add up to one, and the tail function is its complement.',
     ['inputs'], 'every real argument (real arithmetic)',
     'No test evaluates either function; a wrong coefficient or sign on one side of zero passes silently.',
     ['inc/susa/base.h', 'src/base.cpp'], [('the two branches of the approximation', 'src/base.cpp')],
     technique='abstract interpretation of the type-checked AST (polynomial normal form with the exponential as an uninterpreted function)'),
prop('P19', 'Every public operation type-checks for every element type it is meant for',
     'Matrices, arrays and storage blocks can be built, copied, moved, accessed (also when constant) and combined with every public operator and rearranging function for signed and unsigned integer, real and complex element types and with both allocators; reductions, ordering, real-valued analysis, transforms, filters, channels, codes, modulation, generators and sets type-check for their element types; all of that in the default, the log-free and the assertion-free configuration.',
     ['inputs'], 'every use of a public operation with a supported element type, allocator and configuration',
     'Templates the tests do not instantiate are not even compiled: an edit that is only valid for the types the tests use breaks every other user at build time.',
     ['inc/susa/matrix.h', 'inc/susa/array.h', 'inc/susa/base.h', 'inc/susa/linalg.h', 'inc/susa/signal.h', 'inc/susa/solver.h', 'inc/susa/search.h', 'inc/susa/channel.h'],
     [('every public template', 'inc/susa/')], technique='compile witness: type checking of uses of the whole public interface (clang front end)',
     note='The witness fixes which uses are meant to type-check (witness/api.cpp); declared but never implemented operations are outside of it.'),
prop('P23', 'No modifiable state outside of objects; constant operands stay unmodified',
     'The library keeps no modifiable state outside of its objects, other than the allocation tally, which is only changed by single atomic operations, and the stopwatch. No operation modifies an object it receives as constant: the object of a constant member function or an argument taken by constant reference. No numerical operation calls a C function with hidden static state. So threads that work on distinct objects, or only read common ones, cannot interfere, and results do not depend on earlier unrelated calls.',
     ['schedules', 'histories'], 'every interleaving of threads working on distinct objects or reading common ones, and every history of earlier calls',
     'Tests are single-threaded and never look at a constant operand again; a static scratch buffer, a hidden cache or a split update of the tally gives the right answer in every one of them.',
     ['inc/susa/memory.h', 'inc/susa/matrix.h', 'inc/susa/array.h', 'inc/susa/linalg.h', 'inc/susa/signal.h', 'inc/susa/base.h', 'src/base.cpp'],
     [('allocation tally', 'inc/susa/memory.h'), ('constant member functions and operands', 'inc/susa/matrix.h, inc/susa/linalg.h')],
     technique='interprocedural effect (write) analysis over the type-checked AST: static storage, constant operands, atomics, non-reentrant calls',
     note='Aliases are tracked through pointers, references, casts, accessors and callees with bodies in the tree; element types and standard containers are trusted. timestamp() is outside of the property.'),
prop('P20', 'The allocation tally equals the bytes of live logged storage',
     'With the logging allocator the tally of the memory tracker always equals the number of bytes of the storage that is alive: it grows by exactly the size of each new matrix or array, also through copies, assignments to smaller, larger and empty targets, resizing, cloning, in-place operators and temporaries; it is unchanged by moving and by self-assignment; it returns to its earlier value when the containers are gone, and stays right when any of the allocations involved fails.',
     ['inputs', 'histories', 'fault_sequences'], 'every shape, every allocation failing or not',
     'The tests do not use the logging allocator across such sequences; a size mixed up between two operations only shows as a slow drift.',
     ['inc/susa/memory.h', 'inc/susa/matrix.h', 'inc/susa/array.h'], [('tally updates', 'inc/susa/memory.h')]),
prop('P21', 'Integer helper functions return the exact integer result',
     'Integer power, floor-modulo and integer base-2 logarithm return the mathematically exact result for every argument whose result fits the type, including exponents 0 and 1, negative and multiple-of-divisor arguments, and arguments with only the top bit set.',
     ['inputs'], 'every argument in range',
     'Tests evaluate three to five literals each.',
     ['inc/susa/base.h', 'src/base.cpp'], [('integer arithmetic helpers', 'src/base.cpp')]),
prop('P22', 'Sorting, selection and path search return what they promise',
     'For vectors of at least two elements, sorting returns the same values in non-decreasing order and index sorting a permutation of the indices in that order; selecting the k least (most) elements, also among given indices, returns k distinct allowed indices, best first, such that no better element is left out; finding a value returns exactly the set of indices holding it. The shortest-path search returns predecessors over existing edges whose walk back to the source has the least total weight for every reachable node.',
     ['inputs'], 'every element value below the largest one of the type; vectors of up to five elements (find: nine), weighted graphs of up to three nodes, every choice of the source',
     'No test touches these routines.',
     ['inc/susa/search.h'], [('exchange loops, retirement of selected elements, relaxation loop', 'inc/susa/search.h')],
     technique='abstract interpretation of the type-checked AST at fixed sizes with symbolic elements (exhaustive over element orders, linear certificates)'),
prop('P24', 'The singular value decomposition reproduces its matrix',
     'For every matrix with at least as many rows as columns the singular value decomposition returns orthonormal factors and non-negative singular values whose product is the matrix up to rounding.',
     ['inputs'], 'every real matrix with at least as many rows as columns',
     'The routine has no test.',
     ['src/svd.cpp'], [('Householder reduction and implicit QR iteration', 'src/svd.cpp')],
     na='The result is the limit of an implicit QR iteration that stops on a rounding test (x + norm == norm): neither the number of iterations nor the closeness of the limit follows from the source without a convergence and rounding-error argument, which no static analysis in reach supplies. P01 and P02 cover its storage for a single column.'),
prop('P25', 'The text form of a matrix is parsed back to the same elements',
     'A matrix written as text (rows separated by semicolons, elements by blanks or commas) is read with the shape and the elements the text states, for every text, and what the output operator prints is read back unchanged.',
     ['inputs'], 'every text',
     'The tests parse a few literals.',
     ['inc/susa/matrix.h', 'src/matrix.cpp'], [('text parser and output operator', 'inc/susa/matrix.h')],
     na='The conversion is done by string streams of the C++ library (getline, operator>> with locale facets), whose code is compiled into the library and not available as source: there is no text-level semantics to analyse, and a hand-written model of it would be the thing under test.'),
prop('P26', 'Numerical routines are backward stable in floating point',
     'Solutions of linear systems, inverses, determinants, transforms, filters and decoders computed in floating point differ from the exact result by no more than a small multiple of the rounding unit times the condition of the problem.',
     ['inputs'], 'every finite operand',
     'Tests compare with tolerances on benign operands.',
     ['inc/susa/solver.h', 'inc/susa/linalg.h', 'inc/susa/fft.h', 'inc/susa/signal.h'], [('elimination with partial pivoting, accumulation loops', 'inc/susa/solver.h')],
     na='Rounding error grows with sizes, magnitudes and conditioning known only at run time; there is no documented bound, the determinant and the plain elimination (without pivoting) are not stable at all, and no sound static bound is finite over all inputs. P05 to P10 decide the same routines in real arithmetic.'),
]

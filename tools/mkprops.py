"""Writes properties.jsonl (kept as code so that ids, titles and anchors stay in step)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    assert len(title) <= 80, (id, len(title))
    P.append(d)

BR, PE, NC, LP, PO, MA, TL, JR, PM, BS, BU = ('peyl/' + x for x in ('braid.py', 'permutations.py', 'noncrossing.py', 'lpoly.py', 'poly.py', 'matrix.py', 'tl.py', 'jonesrep.py', 'polymat.py', 'braidsearch.py', 'bucketing.py'))

p('B01', 'Equal braid words have equal normal forms',
  'Turning a word in the Artin generators (letters with any positive or negative exponents) into a Garside or dual Garside normal form always gives the normal form of the braid the word denotes. In particular two words that differ by the braid relations, far commutation or free cancellation, anywhere in the word, give identical results.',
  ['inputs'], 'Every word of signed letters over n >= 2 strands, for both Garside structures.',
  'The tests sample random words and a few relations; the claim is about every word and every place a relation can be applied.',
  [BR], [('word to normal form', 'GNF.from_artin_word, DGNF.from_artin_word'), ('pairwise renormalisation', 'NFTable.normalise_factors, PermTable.create, NParTable.create')])
p('B02', 'Any sequence of simple elements normalises to the same braid, left-weighted',
  'A product of simple elements given as an arbitrary sequence (including the identity and the Garside element, in any position), or as a sequence of permutations or noncrossing partitions, is rewritten to a power of the Garside element and a left-weighted sequence of proper simple elements denoting the same braid. The identity and the Garside element never appear among the canonical factors.',
  ['inputs'], 'Every finite sequence of simple elements, both Garside structures.',
  'Tests normalise random sequences only; a wrong sweep bound shows up only for particular interactions of several factors.',
  [BR], [('normalisation', 'NFTable.normalise_factors'), ('pair tables', 'NFTable.renorm, is_normalised, follows'), ('positive products', 'GNF.from_perm_seq, DGNF.from_npar_seq')])
p('B03', 'Multiplication, inversion and powers of normal forms are the group operations',
  'The product, inverse and integer powers of normal forms are the normal forms of the product, inverse and powers of the braids, whatever the (positive or negative, arbitrarily large) powers of the Garside element involved. Hence associativity, identity, inverse and power laws hold exactly.',
  ['inputs', 'histories'], 'All normal forms with an arbitrary integer infimum and bounded canonical length, and chains of operations on them.',
  'Tests multiply random samples of small infimum; carries of Garside powers and early termination of the renormalisation depend on rare factor combinations.',
  [BR], [('product', 'NFBase.__mul__, NFTable.product_normalised_factors'), ('inverse', 'NFBase.inv'), ('power', 'NFBase.__pow__')])
p('B04', 'Words and decompositions read off a braid rebuild exactly that braid',
  'The Artin word of a braid, its word in the 1-based signed-integer convention, and its canonical decomposition into an infimum and canonical factors all rebuild the identical braid. The infimum, supremum, canonical length and canonical factors reported agree with the normal form.',
  ['inputs'], 'All normal forms of both kinds within the bounds, infimum of either sign.',
  'Round trips are tested on samples; they must hold for every braid and both signs of the infimum.',
  [BR], [('reading words', 'NFBase.artin_word, magma_artin_word'), ('decomposition', 'NFBase.canonical_decomposition, BraidGroup.from_gnf_pair, substring'), ('lifts', 'BraidGroup.positive_lift, from_npar, gens, bkl_gens')])
p('B05', 'Conversion between the two normal forms is an isomorphism',
  'Converting a braid from Garside to dual Garside normal form, or back, yields the normal form of the same braid. The two conversions are mutually inverse and compatible with products and inverses.',
  ['inputs'], 'All braids within the bounds, including those with nonzero infimum of either sign.',
  'Tests convert a handful of random braids; the conversion of every factor and of negative Garside powers matters.',
  [BR, NC], [('conversion', 'GNF.to_DGNF, DGNF.to_GNF, _factors_to_DGNF, _factors_to_GNF')])
p('B06', 'Enumerating normal forms is exact: complete, without repeats, and counted right',
  'Enumerating the normal forms of a given canonical length (optionally with a given infimum, or following a given braid) produces each valid one exactly once and nothing else, and the count agrees. The immediate descendants and the suffixes of a braid are exactly its one-factor extensions and the sequences that can follow it without cancellation, and a randomly sampled normal form is always valid and can be any of them.',
  ['inputs', 'configurations'], 'All lengths, strand numbers and starting braids within the bounds; every outcome of the random source.',
  'Tests compare a few counts; completeness is a statement about every normal form, and validity of samples about every outcome of the random source.',
  [BR], [('enumeration', 'NFTable.normal_forms, count_normal_forms, sample'), ('descendants and suffixes', 'NFBase.nf_descendants, nf_suffixes, all_of_length, count_all_of_length, BraidGroup.all_of_garside_length')])
p('B07', 'Stored braids read back unchanged',
  'A braid written in its textual storage form and read back is equal to the original, for both kinds of normal form and any infimum. Text that does not denote a braid is rejected.',
  ['inputs'], 'All normal forms with arbitrary integer infimum.',
  'Tests store one example; the representation must be faithful for every braid.',
  [BR], [('storage', 'adapt_braid, convert_braid, register_sqlite3_adapters')])
p('P01', 'Permutations form the symmetric group',
  'Composition (right factor first), inversion, the identity, the longest element and transpositions obey the laws of the symmetric group. Permutations built from cycles, lists of cycles or words in the adjacent transpositions are the products they denote, and sequences of mismatched size are refused.',
  ['inputs'], 'All permutations and all cycles/words of generators within the bounds.',
  'Only a few products are tested; cycle constructors are not tested at all.',
  [PE], [('group operations', 'compose, inverse, Permutation.__mul__, Permutation.inv'), ('constructors', 'SymmetricGroup.from_cycle, from_cycles, from_cox, transposition, longest_element')])
p('P02', 'Length, descents, reduced words, parity and cycles agree with their definitions',
  'The length of a permutation is its number of inversions, its descents are exactly the generators that shorten it on the corresponding side, and its reduced word is the lexicographically least word of minimal length that rebuilds it. The parity is the length modulo two, and the cycle decomposition reproduces the permutation in the documented order.',
  ['inputs'], 'All permutations within the bounds.',
  'Doctests cover a few permutations; lexicographic minimality in particular is a statement about all words.',
  [PE], [('statistics', 'length, parity, right_descent_set, left_descent_set, is_left_descent, is_right_descent'), ('reduced word', 'shortlex'), ('cycles', 'disjoint_cycles, cycle_type')])
p('P03', 'Validity tests for permutations, matchings, noncrossing permutations are exact',
  'A sequence of integers is accepted as a permutation exactly when it is one, accepted as a crossingless matching exactly when it is a fixed-point-free noncrossing involution, and a permutation is accepted as a product of disjoint parallel descending cycles exactly when it is one. Objects cannot be created from sequences these tests refuse.',
  ['inputs'], 'All integer sequences within the bounds, including out-of-range, negative and repeated entries.',
  'Tests try a few accepted and refused examples; exactness quantifies over all sequences.',
  [PE, TL, NC], [('validity', 'is_permutation, is_descending_cycles, is_parallel_descending_cycles, tl.is_crossingless_matching'), ('guards', 'Permutation.__post_init__, TLDiag.__init__, NPar.__post_init__')])
p('N01', 'Noncrossing partitions: every representation round-trips',
  'Noncrossing partitions convert to their blocks, to permutations made of descending cycles and back without loss, and the enumeration of all of them has no repeats, no omissions and Catalan many elements. Crossing, overlapping or out-of-range block lists, and permutations not of the required form, are refused.',
  ['inputs'], 'All partitions (crossing or not) and permutations within the bounds.',
  'Round trips are tested for a few n by enumeration of valid objects only; refusal of every invalid input is not tested.',
  [NC], [('conversions', 'NPar.from_components, from_permutation, to_permutation, components, edges'), ('enumeration', 'NPar.all_of_size, tl.generate_sequences, catalan')])
p('N02', 'Complements and generator words of noncrossing partitions are right',
  'The left and right complements of a noncrossing partition are mutually inverse and multiply with it, in that order, to the dual Garside element; doing one twice is conjugation by that element. The word of a noncrossing partition or of a band generator in the Artin generators denotes the braid it lifts to.',
  ['inputs'], 'All noncrossing partitions and band generators within the bounds.',
  'Tested on examples for fixed n; the statement is about all partitions.',
  [NC, BR], [('complements', 'NPar.left_complement, right_complement'), ('words', 'bkl_gen_to_artin_word, npar_component_to_artin_word, NPar.artin_word'), ('lifts', 'DGNF.from_npar, BraidGroup.from_npar, bkl_gens')])
p('A01', 'Laurent polynomials form a commutative ring with canonical representatives',
  'Addition, subtraction, negation, multiplication (with polynomials or integers on either side) and powers of Laurent polynomials compute the ring operations for arbitrary integer coefficients and valuations, including negative powers of units. Equal elements always have equal representations: no leading or trailing zero coefficient survives and zero is unique.',
  ['inputs'], 'All Laurent polynomials with arbitrarily large integer coefficients and valuations, bounded number of terms.',
  'Tests use a few fixed polynomials; cancellation of end coefficients depends on coefficient values.',
  [LP], [('ring operations', 'LPoly.__init__, __add__, __sub__, __rsub__, __neg__, __mul__, __pow__'), ('accessors', 'evaluate, map, valuation, degree, is_unit, is_zero, coerce')])
p('A02', 'Integer polynomials: ring operations and exact division',
  'Addition, subtraction, multiplication, powers and evaluation of integer polynomials are those of the polynomial ring, with canonical representatives. Division returns the quotient and a remainder of smaller degree with n = dq + r whenever it returns, exact division undoes multiplication for polynomials and Laurent polynomials, and inexact division is reported as an error.',
  ['inputs'], 'All integer polynomials of bounded degree with arbitrarily large coefficients.',
  'Tests use fixed examples; the identity is over all coefficients.',
  [PO, LP], [('ring operations', 'Poly.__add__, __sub__, __mul__, __pow__, evaluate'), ('division', 'Poly.__divmod__, Poly.__truediv__, LPoly.__truediv__')])
p('A03', 'Cyclotomic, Chebyshev, cosine-minimal polynomials and quantum integers',
  'The cyclotomic polynomials of the divisors of n multiply to x^n - 1, the Chebyshev polynomials satisfy their defining functional equation, and the minimal polynomial of 2cos(2 pi/n) is monic and satisfies the corresponding substitution identity. Quantum integers [n] satisfy (v - v^-1)[n] = v^n - v^-n and [-n] = -[n].',
  ['inputs'], 'All indices within the bounds; identities hold at every integer argument.',
  'Doctests print a few; identities quantify over all arguments.',
  [PO, LP], [('special polynomials', 'Poly.cyclotomic, chebyshevT, minpolycos'), ('quantum integers', 'LPoly.quantum_integer')])
p('A04', 'Printed polynomials denote the value they print',
  'The printed form of a polynomial or Laurent polynomial, read with the usual mathematical conventions, denotes exactly that polynomial: every nonzero term appears once with its sign, coefficient and exponent, in descending order. Different polynomials print differently, and matrices print their entries in position.',
  ['inputs'], 'All (Laurent) polynomials with arbitrary integer coefficients and bounded number of terms.',
  'Doctests print a few polynomials with small coefficients; constant terms other than one are never printed for ordinary polynomials.',
  [LP, PO, MA], [('printing', 'LPoly.fmt, LPoly.__repr__, Poly.__repr__, Matrix.__repr__, Matrix.__str__')])
p('A05', 'Matrices over commutative rings obey matrix algebra',
  'Products, powers, scalar multiples, differences, transposes and traces of matrices with integer or Laurent polynomial entries are those of matrix algebra, for all compatible shapes. Rows, columns, entries and the square/symmetric/integral predicates report the actual contents, and incompatible shapes or out-of-range positions are refused.',
  ['inputs'], 'All matrices of bounded shape (rectangular included) with arbitrary integer entries.',
  'There is no test for this type except doctests on fixed matrices.',
  [MA], [('algebra', 'Matrix.__mul__, __rmul__, __pow__, __sub__, trace, transpose'), ('access', 'Matrix.row, column, rows, __getitem__, is_symmetric, is_square')])
p('T01', 'Temperley-Lieb diagrams form a category with tensor product',
  'Stacking diagrams is associative with the identity diagrams as units, and counts the closed loops consistently; placing diagrams side by side is associative and compatible with stacking; flipping reverses stacking. Diagrams carrying loop counts behave the same way, and mismatched boundary sizes are refused.',
  ['inputs'], 'All diagrams of bounded size, including rectangular shapes.',
  'Tests compose a few diagrams; associativity, interchange and loop counting range over all pairs and triples.',
  [TL], [('composition', 'tl.compose, TLDiag.__mul__, TLExtDiag.__mul__'), ('tensor', 'tl.insert, TLDiag.__matmul__, TLExtDiag.__matmul__'), ('flip', 'TLDiag.flip')])
p('T02', 'Temperley-Lieb morphisms form a category with a Markov trace',
  'Linear combinations of diagrams compose bilinearly and associatively with loops evaluating to v + 1/v, the generators satisfy the Temperley-Lieb relations, and flips (with and without inverting v) reverse composition. The trace is linear, symmetric under exchanging factors, and the quotient by fewer through-strands is an ideal.',
  ['inputs'], 'All morphisms with symbolic coefficients on diagrams of bounded size.',
  'Tests check some relations with fixed coefficients.',
  [TL], [('morphisms', 'TLMor.__init__, __mul__, __rmul__, __add__, __sub__, flip, quotient'), ('trace', 'TLMor.trace, tl.trace_count')])
p('T03', 'Cell modules have the right basis and action',
  'The basis of the cell module for n points and r cups consists of exactly the diagrams with n - 2r through-strands, once each, in sorted order, and its size is the stated dimension; the basis of all diagrams is likewise complete. The action of diagrams on a cell module is a representation of the algebra, and the trace of an element is the sum of its cell characters weighted by quantum integers.',
  ['inputs', 'configurations'], 'All n and r within the bounds and all pairs of diagrams.',
  'A few dimensions are tested; multiplicativity ranges over all pairs of diagrams.',
  [TL, JR], [('bases', 'tl.cell_basis, tl_basis, tl_tableaux_basis, cell_dimension, through_strands'), ('modules', 'TLCell, TLCellElt, jonesrep.cell_matrix')])
p('R01', 'Jones cell representations are homomorphisms of the braid group',
  'The matrices of the Artin generators and their inverses satisfy inverse, braid and far-commutation relations over the Laurent polynomials and modulo any p, and evaluating a word is multiplicative. Braids, permutations and noncrossing partitions that denote the same braid evaluate to the same matrix.',
  ['inputs', 'configurations'], 'All words with symbolic letters within the bounds, all shapes (n - r, r) and moduli within the bounds.',
  'Tests check a few random braids for fixed representations.',
  [JR, TL], [('generators', 'tl_gens_invs, cell_matrices, JonesCellRep.artin_gens_invs'), ('evaluation', 'RepBase.evaluate_artin_word, RepBase.evaluate')])
p('R02', 'The Lawrence-Krammer-Bigelow matrices represent the braid group',
  'For any unit parameters the generator matrices satisfy the braid and far-commutation relations, their listed inverses really are inverses, and words that denote the same braid evaluate to the same matrix; the parameters are the ones given: every generator has the eigenvalues 1, -q and t q^2 (with multiplicities C(n-1,2), n-2 and 1), whatever other representations were used before.',
  ['inputs', 'configurations'], 'All unit parameters (signs and exponents) and all words within the bounds.',
  'No test covers this representation at all.',
  [JR], [('generators', 'LKBRep.artin_gens_invs'), ('evaluation', 'RepBase.evaluate_artin_word')])
p('R03', 'Packed evaluation agrees with exact evaluation up to a power of v',
  'Evaluating braids into packed coefficient arrays - singly, in batches of equal length, from words, from factor indices, or through precomputed tables - gives the exact matrix of each braid up to one overall power of v and reduction modulo p, in the order given. The result does not depend on which other braids share the batch.',
  ['inputs', 'configurations'], 'All batches of normal forms within the bounds, p = 0 and p > 0, any infimum.',
  'Tests compare a few random braids; batching, padding and Garside-power reduction depend on the combination of braids.',
  [JR, BS, PM], [('batch evaluation', 'RepBase.polymat_evaluate_braids_of_same_length, polymat_evaluate_braid_integers_of_same_length, polymat_evaluate_artin_word'), ('older interface', 'braidsearch.evaluate_braids_of_same_length, evaluate_prefixes_of_same_length, evaluate_braids, evaluate_braid_factors')])
p('R04', 'Packed matrices: arithmetic, padding and projectivisation are faithful',
  'Packed products equal products of polynomial matrices (also truncated at a degree, and broadcast over batches), and packing, padding, concatenation, trimming and conversion to and from ordinary matrices change no coefficient. Projectivising divides each matrix of a batch by exactly its own lowest power of v and leaves the smallest uniform width.',
  ['inputs'], 'All packed arrays of bounded shape with arbitrary integer entries, including entries that are zero or negative.',
  'No test targets these functions directly; which coefficients vanish decides the control flow.',
  [PM], [('product', 'polymat.mul'), ('shape changes', 'polymat.pack, zeropad, concatenate, trim, trim_left, from_matrix, to_matrix'), ('projectivisation', 'polymat.projectivise, proj_starts_ends')])
p('R05', 'Statistics of packed matrices match their definitions',
  'The lowest and highest degree, projective and effective length, rho gap and number of nonzero terms reported for a packed matrix equal their definitions on the nonzero coefficients, for single matrices and elementwise on batches, and are unchanged by padding. The per-braid statistics used for searching agree with them.',
  ['inputs'], 'All packed arrays of bounded shape with arbitrary integer entries.',
  'Not tested directly; definitions quantify over which coefficients vanish.',
  [PM, BU, BS], [('statistics', 'polymat.degmax, valmin, projlen, efflen, rhogap, nz_terms, projrank'), ('braid statistics', 'bucketing.Stats, braidsearch.Tracker.braid_image_stats')])
p('R06', 'Arithmetic modulo p is exact in the machine integers used',
  'For every modulus up to the documented limit, multiplying and reducing packed matrices of a representation in the 32-bit type gives the true residues: no intermediate value overflows, and all stored entries lie in [0, p).',
  ['inputs', 'configurations'], 'All matrices with entries in [0, p), all p up to the documented bound, dimensions and degrees within the bounds.',
  'Tests use small primes and few products, where overflow cannot occur.',
  [JR, PM, BS], [('modular product', 'RepBase.polymat_mul, polymat_dtype, JonesSummand.mul, JonesSummand.dtype'), ('reduction', 'RepBase.evaluate_artin_word, _polymat_braid_factor, _polymat_delta_power')])
p('S01', 'Every braid kept by a search tracker sits in the right bucket with its own image',
  'After any sequence of additions, each bucket holds at most its capacity, every braid in it has the statistics naming the bucket, and the image and weight stored at its position are its own projectivised image and weight. The count and total weight of everything offered to a bucket are exact, and discarding a bucket removes it alone.',
  ['inputs', 'histories'], 'All sequences of additions within the bounds, all sampling strategies, all outcomes of the random source.',
  'Tests run a seeded search; the invariant ranges over all histories and random outcomes.',
  [BU, BS], [('adding', 'bucketing.Tracker.add_braids_images, Bucket.append_braid, replace_braid, show_reservoir'), ('older tracker', 'braidsearch.Tracker.add_braids_images')])
p('S02', 'Reservoir sampling keeps a uniform sample',
  'With the uniform strategy, once more items have been offered to a bucket than fit, every item offered so far is kept with the same probability capacity/offered, whatever the order of batches. Before that every item is kept, and the greedy strategy keeps exactly the first items.',
  ['inputs', 'histories'], 'All outcomes of the random source (as exact real intervals) and all split of the stream into batches within the bounds.',
  'Statistical properties cannot be settled by seeded runs.',
  [BU, BS], [('sampling', 'bucketing.Tracker.add_braids_images (Uniform, GreedyFirst)'), ('older tracker', 'braidsearch.Tracker.add_braids_images')])
p('S03', 'Weighted strategies keep what they promise',
  'The evict-minimum strategy always holds the heaviest items offered so far, and an item never displaces one of equal weight. The weighted strategy accepts each later item with probability capacity times its share of the total weight, and never fails on zero weights.',
  ['inputs', 'histories'], 'All weight sequences (nonnegative reals) and random outcomes within the bounds.',
  'Depends on the order and ties of weights; tests do not cover the weighted strategies.',
  [BU, BS], [('strategies', 'bucketing.Tracker.add_braids_images (AChao, EvictMin)'), ('minimising older tracker', 'braidsearch.Tracker.add_braids_images')])
p('S04', 'Advancing a bucket produces exactly the true descendants with true images',
  'Exhaustive bootstrap offers every normal form of each requested length exactly once with its image. Advancing a bucket by a number of letters offers every normal form of that many more letters extending one of its braids exactly once, paired with its own image (the older tracker additionally offers the shorter extensions).',
  ['inputs', 'histories'], 'All bucket contents within the bounds.',
  'Tests run one search; correct pairing depends on the multiset of last factors in the bucket.',
  [BU, BS], [('advancing', 'bucketing.Tracker.nf_descendants, bootstrap_exhaustive'), ('older tracker', 'braidsearch.Tracker.nf_descendants, bootstrap_exhaustive')])
p('S05', 'The search script records and reports only true results',
  'Whatever its options and random draws, every braid the search script saves is recorded with its true Garside length and projective length, and every braid it reports as a near-kernel element has an image of projective length one. At each step it saves, and advances by the step size, whole groups of equal projective length in order of promise without exceeding the configured numbers, it reports every near-kernel element it holds, and when asked to it ends once one is found.',
  ['inputs', 'configurations'], 'All option values and all outcomes of the random source within the bounds.',
  'The script is not covered by tests.',
  ['search.py', BU], [('driver', 'search.py main'), ('reporting', 'bucketing.Tracker.stats')])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as fh:
    for d in P:
        fh.write(json.dumps(d) + '\n')
print(len(P))

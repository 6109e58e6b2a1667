"""What each check compares with, the bounds of each job in words, the deeper parameters of the thorough tier, and what is left out."""
ORACLE = {
    'C01': 'plain array, sums by addition', 'C02': 'prefix sums of the plain array; predicate = a symbolic length of the leading part; every argument given to the predicate must be an inclusive prefix sum',
    'C03': 'product in the free monoid (words over symbolic letters): equal words = equal products in every monoid', 'C04': 'free monoid; predicate = "length at most k", k symbolic; every argument of the predicate compared with the product of its range',
    'C05': 'free monoid acted on by the free monoid: every element carries its value and the word of maps applied to it, in order', 'C06': 'as C05, with the predicate of C04; afterwards every element is read again',
    'C07': 'free band (idempotent monoid), words without repetitions, minimum', 'C08': 'component of every element as a symbolic bit set',
    'C09': 'bag of (key, identity)', 'C10': 'paths of the rooted tree walked edge by edge', 'C11': 'plain per-node values; sets of nodes and words of maps in order, sums of 64-bit data',
    'C12': "deficiency formula (König-Ore) over the symbolic neighbourhoods: n - max over left sets S of |S| - |N(S)|", 'C13': 'minimum over all s-t cuts of the symbolic capacities; for growing networks the difference',
    'C14': 'at most the weight of every path (triangle inequality over every edge) and attained by some simple path', 'C15': 'transitive closure',
    'C16': 'the definition: every proper border of every prefix compared symbol by symbol', 'C17': 'the definition: common prefixes compared symbol by symbol',
    'C18': 'direct comparison of every pattern at every position; the longest suffix that is a prefix of a pattern by direct comparison',
    'C19': 'the integer result reduced by conditional subtraction, or given as quotient and remainder (x = q*m + r)', 'C20': 'as C19, for moduli set at run time',
    'C21': 'the defining equation a*x = 1 (q*a = b) mod m; units listed by plain gcd', 'C22': 'repeated multiplication for residues of small moduli; x^n from x^(2^k); a trait implementor that counts factors',
    'C23': 'plain Euclid on the small operands, scaled by a symbolic common factor; Bezout equation', 'C24': 'every x below the least common multiple tried; for large moduli the congruences themselves and the lcm',
    'C25': "Pascal's triangle and falling factorials mod p", 'C26': 'a tokenizer over the characters (char::is_whitespace); the integer whose digits were written',
    'C27': 'an ordinary recursive function with the same body', 'C28': 'the definition: 2^k <= i < 2^(k+1)', 'C29': 'comparison, addition and multiplication of the primitive type, in wider arithmetic',
    'C30': 'x = q*m + r with symbolic q and r; Bezout; repeated multiplication', 'C31': 'trial division; the order of an element by its powers; for large primes the known factors of p - 1',
    'C32': 'the decimal digits themselves', 'C33': 'counters inside the arguments; the exact text handed to standard error',
}
B = {
    'c01_ops': 'n 0..{0}, both constructions, {1} additions (by value and by reference) at any index, every range; values 54-bit signed',
    'c01_sparse': 'n 1..{0}, {1} additions, wrapping 64-bit values', 'c01_big': 'n {0}..{0}+{1}-1, built both ways, one addition, every range', 'c01_unsigned': 'u32, n 1..{0}, one addition, every range',
    'c02_search': 'n 0..{0}, 60-bit values, {1} addition, any 64-bit target', 'c02_search_i64': 'i64, n 0..{0}, any target', 'c02_partition': 'n {0}..{0}+{1}-1, any length of the leading part, values carrying the set they sum', 'c02_big': 'n {0}..{0}+{1}-1, sums of ones, any threshold',
    'c03_free': 'free monoid, n 0..{0}, both constructions, {1} assignments (identity included) anywhere, every range', 'c03_big': 'n {0}..{0}+{1}-1, one assignment anywhere, every range (a grid of left ends above {2})', 'c03_max': 'Max<i64>, n 1..{0}', 'c03_min_sum': 'Min<u32>, Additive<u32>, n 1..{0}', 'c03_panics': 'n 0..{0}, every out-of-range 64-bit argument',
    'c04_free': 'free monoid, n 0..{0}, {1} assignment before, every start, every k', 'c04_big': 'n {0}..{0}+{1}-1, every start, every k', 'c04_max': 'Max<i32> against any threshold, n 1..{0}', 'c04_sum': 'prefix sums against any bound, n 1..{0}', 'c04_panics': 'n 0..{0}, every start beyond n; predicates that reject the identity',
    'c05_free': 'free action, n {2}..{0}, {1} updates of any kind and range, one query, then every range', 'c05_mixed': 'the same with a query after each update, n {2}..{0}', 'c05_big': 'n {0}..{0}+{1}-1, {2} range update, one point operation, then all elements', 'c05_deep': 'n of the first {0} of 17, 31, 33, 64, 65, 100; range ends around block boundaries', 'c05_assign_add': 'assign/add over 64-bit sums, kind symbolic, n 1..{0}, {1} updates', 'c05_max_add': 'add/maximum, n 1..{0}, 2 updates', 'c05_new_default': 'new / default, n 0..{0}', 'c05_panics': 'n 0..{0}, every out-of-range argument',
    'c06_free': 'free action, n {2}..{0}, {1} update, every start, every k, both directions', 'c06_sum': 'non-negative sums, n 1..{0}, {1} update, any bound', 'c06_big': 'n {0}..{0}+{1}-1, one range update, every start and k', 'c06_deep': 'n of the first {0} of 17, 31, 33, 64, 65, 100; ends around block boundaries', 'c06_panics': 'n 0..{0}, starts beyond n, predicates that reject the identity',
    'c07_band': 'free band, n {1}..{0}, every range', 'c07_dedup': 'words without repetition, n 1..{0}, every range', 'c07_min': 'minimum of i64, n 1..{0}', 'c07_query': 'n 1..{0}, symbolic l and r', 'c07_panics': 'n 1..{0}, every l >= r and r > n',
    'c08_joins': 'n {2}..{0}, {1} joins, both ends symbolic, all queries', 'c08_mixed': 'n {2}..{0}, {1} joins with queries in between', 'c08_blocks': '2^{0} elements merged block by block through {1} representatives of each', 'c08_chain': 'n 2..{0}, joins that build deep trees', 'c08_panics': 'n 0..{0}, every out-of-range element',
    'c09_history': '{0} operations (push, pop, clear, queries), 64-bit keys', 'c09_drain': 'n 0..{0}, pushed and popped', 'c09_sorted': 'n 0..{0}, into_sorted_vec, possibly after a pop', 'c09_append': 'heaps of 0..{0} and 0..{1} elements', 'c09_ints': 'pairs of 64-bit integers, n 0..{0}',
    'c10_all_trees': 'every labelled tree of 1..{0} nodes, every root, both adjacency orders; both query nodes symbolic',
    'c10_shapes': 'tree families (path, star, binary, caterpillar, broom, ternary, three legs, binomial), {0} + {2}k nodes (k < {1}), {3} roots (0: all), 3 labellings, every pair',
    'c11_free': 'every labelled tree of {2}..{0} nodes, every root, {1} updates (node, path, subtree), then every query', 'c11_new': 'default values, every tree of 1..{0} nodes', 'c11_shapes': 'tree families of {0}..{0}+{1}-1 nodes, every root, one update (assign or add, path or subtree), then every query', 'c11_large': 'families of 16, 31 (33) nodes, 3 roots, {1} updates at 3 nodes, every query',
    'c12_any': '{2} edges in any order, {0}+{1} vertices, right ends symbolic', 'c12_subsets': 'every subset of the {0}x{1} edges, 3 insertion orders', 'c12_grow': 'up to {0}+{1} vertices, {3} edges added {2} times, solved in between', 'c12_chain': 'n 2..{0}: long augmenting paths',
    'c13_small_i64': '2..{0} vertices, {1} edges anywhere (loops, parallel), {2} more after solving; every source and sink; symbolic 58-bit capacities', 'c13_small_u8': 'u8, 2..{0} vertices, {1}+{2} edges', 'c13_small_u64': 'u64, 2..{0} vertices, {1}+{2} edges', 'c13_small_i32': 'i32, 2..{0} vertices, {1} edges',
    'c01_long': 'n {0} and two more; every element and one addition at 3 places symbolic, all prefixes', 'c03_long': 'n {0} and two more, one assignment at 3 places, 4 left ends with every right end; values symbolic',
    'c05_long': 'n {0} and two more, {1} update of 5 ranges, one set or apply at 3 places; every 32nd value and the maps symbolic', 'c06_long': 'n {0} and one more, one pending update, 5 starting points, both directions, boundary symbolic',
    'c11_long': 'spines with and without leaves of {0} nodes and one more, one path or subtree update, one assignment; values symbolic', 'c16_long': 'runs of {0} equal symbols and one more, another symbol at 5 places', 'c17_long': 'runs of {0} equal symbols and one more, another symbol at 5 places',
    'c18_long': 'a pattern of {0} letters, {1} nested ones, one that ends differently; texts of 5 lengths with a symbolic last letter', 'c19_long_folds': '15 moduli, lists of {0} with the last element symbolic', 'c20_long_folds': '34 moduli, lists of {0} with the last element symbolic',
    'c10_long': 'paths and paths with leaves of {0} nodes and one more, both labellings, 5 nodes against all', 'c12_long': 'chains of {0} vertices and one more, one more edge at 3 places that moves every matched vertex',
    'c13_long': 'a path of {0} vertices and one fewer, two capacities and a shortcut or back edge symbolic', 'c14_long': 'a path of {0} vertices and one more, two weights and a shortcut symbolic', 'c15_long': 'a path of {0} vertices and one more, with an edge back between 9 pairs of places, both labellings',
    'c13_skeletons': 'network {0} of 7 fixed ones (up to 8 edges), {1} insertion orders and their reverses, every capacity symbolic', 'c13_extreme': 'capacities up to u32::MAX', 'c13_panics': 'n 0..{0}, sources or sinks out of range',
    'c14_any': '1..{0} vertices, {1} edges anywhere, 60-bit weights, every source', 'c14_subsets': 'every digraph without loops on {0} vertices', 'c14_skeletons': 'denser graph {0} of 4, keys that decrease repeatedly', 'c14_ties': 'weights 0 and 1',
    'c15_any': '{2}..{0} vertices, {1} edges anywhere', 'c15_subsets': 'every digraph without loops on {0} vertices, {1} adjacency orders', 'c15_chords': 'a cycle or path of {0} vertices with {1} chords anywhere, labels scrambled',
    'c16_any': 'every sequence of {1}..{0} 64-bit symbols', 'c16_bytes': 'every byte string of {1}..{0}', 'c16_binary': 'every binary sequence of {1}..{0}', 'c16_periodic': 'length {0}, periods 1..{1}, one symbol changed anywhere',
    'c17_any': 'every sequence of {1}..{0} 64-bit symbols', 'c17_bytes': 'every byte string of {1}..{0}', 'c17_binary': 'every binary sequence of {1}..{0}', 'c17_periodic': 'length {0}, periods 1..{1}, one symbol changed anywhere',
    'c18_binary': '0..{0} distinct binary patterns of length 1..{1}, text of {2} symbolic letters', 'c18_ternary': '1..{0} ternary patterns of length 1..{1}, text of {2}', 'c18_letters': '26 letters, 1..{0} patterns of length 1..{1}, text of {2}', 'c18_offsets': 'offsets 0 and 254, 1..{0} patterns', 'c18_nested': 'any subset of the prefixes and suffixes of any binary word of {0}, text of {1}', 'c18_chain': 'word of {0} letters, each suffix absent, pattern or start of one', 'c18_panics': 'an empty pattern',
    'c19_arith': '15 moduli (1, 2, 3, 4, 7, 10, 255, 256, 65537, 2^30, 2^31-1, 2^31, 2^31-2, 10^9+7, 998244353), every pair of residues, every form of + - neg and comparison', 'c19_product_known': 'products x*y = q*m + r for every residue x and listed y', 'c19_folds': 'sums and products of 0..{0} residues', 'c19_integers': 'every primitive integer type on either side of every operator', 'c19_creation': 'creation from every value of every primitive integer type', 'c19_wide_ends': 'the ends of the 64- and 128-bit types',
    'c20_arith': 'moduli of a list of 34 from 1 to 2^31, every pair of residues', 'c20_product_known': 'Barrett products for every residue and listed factors', 'c20_folds': 'sums and products of 0..{0} residues', 'c20_integers': 'every primitive integer type in every operator', 'c20_creation': 'creation from every value of every primitive type', 'c20_wide_ends': 'the ends of the wide types', 'c20_initial': 'no call; an identifier with its own initial modulus', 'c20_history': 'up to {0} settings, two identifiers', 'c20_any_modulus': 'every modulus at once: sums, differences, negation, quotients within +-{0}', 'c20_zero': 'modulus 0',
    'c21_prime': 'small primes hinted prime, every residue', 'c21_composite': 'small composite moduli', 'c21_dynamic': 'dynamic moduli 1..{0}', 'c21_division': 'every pair, every form, static', 'c21_division_dynamic': 'every pair, dynamic 1..{0}', 'c21_integers': 'division by and of primitive integers', 'c21_large': 'large static moduli: 320 picked divisors, every dividend', 'c21_large_dynamic': 'large dynamic moduli', 'c21_scaled': 'moduli k*g for k <= {0} and every 25-bit g: no multiple of g has an inverse',
    'c22_default': 'every 64-bit exponent, implementor that counts factors', 'c22_small': '8 moduli <= 11, every base, exponents of up to {0} bits', 'c22_window': 'exponents of 64 bits with a window of {0} symbolic bits at 8 places', 'c22_dynamic': 'dynamic moduli 1..{0}', 'c22_own': 'inherent pow, windows of {0} bits', 'c22_large': 'large moduli, exponents 0..{0}-1', 'c22_sparse': 'exponents with two bits set anywhere, large moduli',
    'c23_gcd': 'all 12 types, every a (up to 124 bits) by every b <= {0}', 'c23_scaled': 'A*g, B*g with A, B <= {0}, every g', 'c23_chain': 'Fibonacci-like chains of up to {0} divisions times every g', 'c23_lcm': 'lcm, b <= {0}', 'c23_ex_gcd': '6 signed types, every a by |b| <= {0}, every sign', 'c23_ex_scaled': 'multiples within +-{0} of every g', 'c23_extremes': 'the ends of the types',
    'c24_one': 'systems of 0 and 1 congruences, m <= {0}, coefficients any 60-bit integers', 'c24_two': 'two congruences, m <= {0}', 'c24_three': 'three congruences, m <= {0}', 'c24_large': '14 pairs of large moduli', 'c24_extremes': 'the ends of the 64-bit range',
    'c25_small': 'primes 2..13, every table size, every n and k', 'c25_large': 'primes up to 2^31-1, table sizes {1} and down to {0} less, every n, k symbolic', 'c25_beyond': 'every other 64-bit n and k, tables up to {0}',
    'c26_ascii': 'every ASCII text of up to {0} characters, 5 ways of reading', 'c26_unicode': 'texts of up to {0} of 12 characters (white space and others, 1 to 4 bytes)', 'c26_i32': 'every i32, any sign and leading zeros', 'c26_i64': 'every i64', 'c26_usize': 'every usize', 'c26_others': 'u8, i8, i16, u32', 'c26_no_value': 'tokens of one character that is no digit; reads after the last token: no value comes back', 'c26_calls': 'up to {0} tokens, any sequence of 7 kinds of call',
    'c27_arity': 'arities 1..9, 64-bit arguments, up to {0}-1 nested calls, one or two per call', 'c27_zero': 'arity 0, up to {0}-1 nested calls', 'c27_deep': 'depth {0}', 'c27_search': 'depth-first search with captured visited set', 'c27_owned': 'captured vector moved in, up to {0} elements',
    'c28_lg': 'every 64-bit argument', 'c28_ceil_lg': 'every 32-bit argument',
    'c29_order': '12 types, every pair and triple of values', 'c29_sums': '12 types, every triple whose sums fit', 'c29_units': 'identities and constants, 12 types', 'c29_products': 'factors of half the width', 'c29_scaled': '11 factors by every value', 'c29_product_associative': 'i8 and u8, every triple',
    'c30_safe_mod': '24 moduli up to 2^63-1, every x within 62 bits', 'c30_safe_mod_extremes': 'x within 2^16 of the ends', 'c30_safe_mod_any_modulus': 'every modulus, x within 2m', 'c30_inv_gcd': 'every a by b <= {0}', 'c30_inv_gcd_scaled': 'small multiples of every g', 'c30_inv_gcd_large': '11 large moduli, picked residues', 'c30_pow_mod': 'm <= {0}, every x, exponents of up to {1} bits', 'c30_pow_window': 'm <= {0}, 63-bit exponents with a window of {1} bits', 'c30_pow_large': 'exponents below {0}, large moduli', 'c30_mul_mod': 'products of every 62-bit pair by listed moduli',
    'c31_not_odd': 'every even, zero and negative n', 'c31_small': 'every odd n below 2^{0}', 'c31_near': 'windows of 2^{0} around listed values up to 2^31', 'c31_two_bases': 'strong pseudoprimes to two bases', 'c31_composites': 'listed large composites', 'c31_root_small': 'every prime below 2^{0}', 'c31_root_large': 'listed large primes', 'c31_root_decisive': 'primes whose root hangs on a single factor of p - 1',
    'c33_effects': '1 to 6 arguments with effects, symbolic values', 'c33_mutation': 'arguments that update a 64-bit state', 'c33_values': 'variables, references, tuples, literals', 'c33_nested': 'nested calls to depth 2; no argument',
    'c32_print': '13 moduli, {0}-digit windows of symbolic digits in numbers of every length', 'c32_back': 'the same, printed and parsed', 'c32_parse': '{0}-digit windows in numbers of every length, both signs', 'c32_hash': 'equal residues by different routes',
}
THOROUGH = {
    'c01_sparse': {0: 8, 1: 3}, 'c01_big': {0: 7, 1: 90}, 'c01_unsigned': {0: 10},
    'c02_search': {0: 9, 1: 1}, 'c02_search_i64': {0: 14}, 'c02_partition': {0: 0, 1: 60}, 'c02_big': {0: 0, 1: 130},
    'c03_free': {0: 8, 1: 2}, 'c03_big': {0: 7, 1: 60, 2: 40}, 'c03_max': {0: 8}, 'c03_min_sum': {0: 9}, 'c03_panics': {0: 9},
    'c04_free': {0: 9, 1: 1}, 'c04_big': {0: 7, 1: 60}, 'c04_max': {0: 9}, 'c04_sum': {0: 9}, 'c04_panics': {0: 9},
    'c05_free': {0: 5, 1: 2, 2: 1}, 'c05_mixed': {0: 4, 1: 2, 2: 1}, 'c05_big': {0: 9, 1: 5, 2: 1}, 'c05_assign_add': {0: 5, 1: 2}, 'c05_max_add': {0: 4}, 'c05_new_default': {0: 7}, 'c05_panics': {0: 8},
    'c06_free': {0: 6, 1: 1, 2: 0}, 'c06_sum': {0: 5, 1: 1}, 'c06_big': {0: 9, 1: 5}, 'c06_panics': {0: 8},
    'c07_band': {0: 100, 1: 1}, 'c07_dedup': {0: 9}, 'c07_min': {0: 16}, 'c07_query': {0: 24}, 'c07_panics': {0: 12},
    'c09_history': {0: 6}, 'c09_drain': {0: 8}, 'c09_sorted': {0: 7}, 'c09_append': {0: 5, 1: 4}, 'c09_ints': {0: 6},
    'c11_new': {0: 6}, 'c11_shapes': {0: 9, 1: 4, 2: 2}, 'c11_free': {0: 5, 1: 2, 2: 1},
    'c12_any': {0: 4, 1: 3, 2: 5, 3: 0, 4: 0}, 'c12_subsets': {0: 4, 1: 3}, 'c12_grow': {0: 4, 1: 3, 2: 2, 3: 2}, 'c12_chain': {0: 5},
    'c10_long': {0: 1000}, 'c12_long': {0: 1000}, 'c13_long': {0: 1500}, 'c14_long': {0: 200}, 'c15_long': {0: 1500},
    'c01_long': {0: 400}, 'c03_long': {0: 400}, 'c05_long': {0: 400, 1: 2}, 'c06_long': {0: 400}, 'c11_long': {0: 900}, 'c16_long': {0: 2000}, 'c17_long': {0: 2000}, 'c18_long': {0: 500, 1: 100}, 'c19_long_folds': {0: 200}, 'c20_long_folds': {0: 200},
    'c14_any': {0: 4, 1: 4}, 'c15_any': {0: 4, 1: 5, 2: 0}, 'c15_chords': {0: 9, 1: 2},
    'c16_any': {0: 9, 1: 0}, 'c16_bytes': {0: 8, 1: 0}, 'c16_binary': {0: 13, 1: 0}, 'c16_periodic': {0: 24, 1: 6},
    'c17_any': {0: 9, 1: 0}, 'c17_bytes': {0: 8, 1: 0}, 'c17_binary': {0: 13, 1: 0}, 'c17_periodic': {0: 24, 1: 6},
    'c18_binary': {0: 2, 1: 3, 2: 7}, 'c18_ternary': {0: 2, 1: 2, 2: 5}, 'c18_letters': {0: 2, 1: 3, 2: 4}, 'c18_offsets': {0: 2, 1: 3, 2: 4}, 'c18_nested': {0: 4, 1: 5}, 'c18_chain': {0: 5, 1: 1, 2: 1},
    'c19_folds': {0: 5}, 'c20_folds': {0: 4}, 'c20_history': {0: 3}, 'c20_any_modulus': {0: 6},
    'c22_small': {0: 8}, 'c23_gcd': {0: 48}, 'c23_scaled': {0: 12}, 'c23_chain': {0: 40}, 'c23_lcm': {0: 30}, 'c23_ex_gcd': {0: 32}, 'c23_ex_scaled': {0: 10},
    'c24_one': {0: 30}, 'c27_arity': {0: 5}, 'c27_zero': {0: 10}, 'c27_deep': {0: 200}, 'c27_owned': {0: 7},
    'c30_inv_gcd': {0: 128}, 'c30_inv_gcd_scaled': {0: 40}, 'c30_pow_mod': {0: 10, 1: 8}, 'c30_pow_window': {0: 6, 1: 6}, 'c30_pow_large': {0: 40},
}
OUTSIDE = {
    'C01': 'longer trees and histories; element types other than i64, u32 and wrapping u64', 'C02': 'longer trees; floating-point elements', 'C03': 'longer vectors and histories',
    'C04': 'longer vectors; predicates that panic', 'C05': 'longer histories on larger trees', 'C06': 'more than one pending update before a search on larger trees', 'C07': 'more than 70 elements; operations that are not idempotent (excluded by the contract)',
    'C08': 'more elements and joins than stated', 'C09': 'larger heaps; element types whose order panics', 'C10': 'trees of other shapes above 5 nodes; more than 33 nodes', 'C11': 'non-commutative monoids (the code combines chains in no fixed order); larger trees of other shapes',
    'C12': 'larger graphs', 'C13': 'larger networks than the skeletons; capacities whose sums overflow the type', 'C14': 'larger graphs; path weights that overflow', 'C15': 'larger graphs; recursion depth beyond the stack',
    'C16': 'longer sequences', 'C17': 'longer sequences', 'C18': 'more or longer patterns; duplicate patterns', 'C19': 'other static moduli; products of two fully symbolic residues of a large modulus beyond quotient/remainder form',
    'C20': 'products for moduli outside the list; moduli above 2^31', 'C21': 'large moduli beyond the picked divisors', 'C22': 'exponents with many bits set for large moduli (covered by the counting implementor only)',
    'C23': 'pairs whose Euclidean run is neither short nor Fibonacci-like', 'C24': 'more than three congruences; other large moduli', 'C25': 'larger tables', 'C26': 'longer texts; reading from the process standard input itself (the reader is given its text through its public API)',
    'C27': 'deeper recursion', 'C28': 'nothing: all arguments are covered', 'C29': 'multiplication outside the stated factors (associativity of wide products)', 'C30': 'powers for large moduli beyond short exponents',
    'C31': 'primes and composites above 2^12 outside the windows and lists: the arithmetic mod a symbolic n is beyond the solver, so the number is fixed path by path', 'C32': 'numbers with more symbolic digits than the window', 'C33': 'the destination of the text (the print functions of std are replaced by recording stand-ins)',
}


def apply(jobs):
    for p, c in jobs.items():
        c.setdefault('oracle', ORACLE.get(p, ''))
        c.setdefault('outside', OUTSIDE.get(p, ''))
        for j in c['jobs']:
            e = j['entry']
            what = ' (release build)' if j.get('release') else ''
            if e in B:
                j['bounds'] = B[e].format(*[j.get('params', {}).get(k, 0) for k in range(5)]) + what
            if e in THOROUGH and 'thorough' not in j:
                j['thorough'] = {'params': THOROUGH[e]}
            if 'thorough' in j and e in B and 'params' in j['thorough']:
                j['thorough'].setdefault('bounds', B[e].format(*[j['thorough']['params'].get(k, 0) for k in range(5)]))

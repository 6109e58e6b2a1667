"""Which harness entries decide which property, with which bounds per tier."""
import os
COMMON_ASSUMPTIONS = [
    'dev-profile semantics (overflow and debug assertions on) of rustc stable at opt-level 1, panics abort; allocation never fails',
    'the executor of /verif/engine and Z3 are trusted; sampled paths are re-run natively and must give the same observations',
]
FS = {'fork-select': True}
DIV = {'div': True, 'fork-div': 300}
DIVI = {'div': True, 'fork-div': 300, 'int-first': True}
JOBS = {
    'C01': {'jobs': [
        {'entry': 'c01_ops', 'params': {0: 6, 1: 2}, 'bounds': 'n 0..6, both constructions, 2 additions at any index, all ranges; values 54-bit signed',
         'thorough': {'params': {0: 8, 1: 3}}},
        {'entry': 'c01_sparse', 'params': {0: 6, 1: 2}},
        {'entry': 'c01_big', 'params': {0: 7, 1: 30}},
        {'entry': 'c01_long', 'params': {0: 255}},
        {'entry': 'c01_unsigned', 'params': {0: 6}},
    ]},
    'C02': {'jobs': [
        {'entry': 'c02_search', 'params': {0: 6, 1: 1}},
        {'entry': 'c02_search_i64', 'params': {0: 9}},
        {'entry': 'c02_partition', 'params': {0: 0, 1: 34}},
        {'entry': 'c02_big', 'params': {0: 0, 1: 36}},
    ]},
    'C03': {'jobs': [
        {'entry': 'c03_free', 'params': {0: 6, 1: 2}},
        {'entry': 'c03_big', 'params': {0: 7, 1: 30, 2: 40}},
        {'entry': 'c03_long', 'params': {0: 255}},
        {'entry': 'c03_max', 'params': {0: 5}},
        {'entry': 'c03_min_sum', 'params': {0: 6}},
        {'entry': 'c03_panics', 'params': {0: 5}},
    ]},
    'C04': {'jobs': [
        {'entry': 'c04_free', 'params': {0: 6, 1: 1}},
        {'entry': 'c04_big', 'params': {0: 7, 1: 30}},
        {'entry': 'c04_max', 'params': {0: 6}},
        {'entry': 'c04_sum', 'params': {0: 6}},
        {'entry': 'c04_panics', 'params': {0: 4}},
    ]},
    'C05': {'jobs': [
        {'entry': 'c05_free', 'params': {0: 4, 1: 2, 2: 1}},
        {'entry': 'c05_mixed', 'params': {0: 3, 1: 2, 2: 1}},
        {'entry': 'c05_big', 'params': {0: 9, 1: 1, 2: 1}},
        {'entry': 'c05_long', 'params': {0: 127, 1: 1}},
        {'entry': 'c05_deep', 'params': {0: 4}, 'thorough': {'params': {0: 6}}},
        {'entry': 'c05_assign_add', 'params': {0: 4, 1: 2}},
        {'entry': 'c05_max_add', 'params': {0: 3}},
        {'entry': 'c05_new_default', 'params': {0: 4}},
        {'entry': 'c05_panics', 'params': {0: 4}},
    ]},
    'C06': {'jobs': [
        {'entry': 'c06_free', 'params': {0: 4, 1: 1, 2: 0}},
        {'entry': 'c06_sum', 'params': {0: 4, 1: 1}},
        {'entry': 'c06_big', 'params': {0: 9, 1: 1}},
        {'entry': 'c06_long', 'params': {0: 128}},
        {'entry': 'c06_deep', 'params': {0: 3}, 'thorough': {'params': {0: 6}}},
        {'entry': 'c06_panics', 'params': {0: 4}},
    ]},
    'C07': {'jobs': [
        {'entry': 'c07_band', 'params': {0: 70, 1: 1}},
        {'entry': 'c07_dedup', 'params': {0: 6}},
        {'entry': 'c07_min', 'params': {0: 10}},
        {'entry': 'c07_query', 'params': {0: 12}},
        {'entry': 'c07_panics', 'params': {0: 6}},
    ]},
    'C08': {'jobs': [
        {'entry': 'c08_joins', 'params': {0: 4, 1: 3, 2: 1}, 'opts': {'no-lia': True, 'ite-limit': 1}},
        {'entry': 'c08_joins', 'params': {0: 5, 1: 3, 2: 5}, 'opts': {'no-lia': True, 'ite-limit': 1}},
        {'entry': 'c08_mixed', 'params': {0: 3, 1: 3, 2: 1}, 'opts': {'no-lia': True, 'ite-limit': 1}},
        {'entry': 'c08_blocks', 'params': {0: 3, 1: 4}},
        {'entry': 'c08_blocks', 'params': {0: 4, 1: 2}},
        {'entry': 'c08_chain', 'params': {0: 6}},
        {'entry': 'c08_panics', 'params': {0: 4}},
    ]},
    'C09': {'jobs': [
        {'entry': 'c09_history', 'params': {0: 5}},
        {'entry': 'c09_drain', 'params': {0: 7}},
        {'entry': 'c09_sorted', 'params': {0: 6}},
        {'entry': 'c09_append', 'params': {0: 4, 1: 3}},
        {'entry': 'c09_ints', 'params': {0: 5}},
    ]},
    'C10': {'jobs': [
        {'entry': 'c10_all_trees', 'params': {0: 5, 1: 1}, 'opts': {'no-lia': True}, 'weight': 9,
         'bounds': 'every labelled tree of 1..5 nodes, every root, both adjacency orders; both query nodes symbolic',
         'thorough': {'params': {0: 6, 1: 1}}},
        {'entry': 'c10_shapes', 'params': {0: 6, 1: 12, 2: 1, 3: 3}, 'opts': {'no-lia': True, 'ite-limit': 1},
         'bounds': 'tree families (path, star, binary, caterpillar, broom, ternary, three legs, binomial), 6..17 nodes, 3 labellings, 3 roots, all pairs (forked)',
         'thorough': {'params': {0: 6, 1: 30, 2: 1, 3: 4}}},
        {'entry': 'c10_shapes', 'params': {0: 31, 1: 2, 2: 2, 3: 2}, 'opts': {'no-lia': True, 'ite-limit': 1},
         'bounds': 'the same families with 31 and 33 nodes, 2 roots'},
        {'entry': 'c10_long', 'params': {0: 300}, 'opts': {'no-lia': True}},
    ]},
    'C11': {'jobs': [
        {'entry': 'c11_free', 'params': {0: 4, 1: 2, 2: 1}},
        {'entry': 'c11_new', 'params': {0: 5}},
        {'entry': 'c11_shapes', 'params': {0: 9, 1: 2, 2: 1}},
        {'entry': 'c11_large', 'params': {0: 2, 1: 1}, 'thorough': {'params': {0: 3, 1: 2}}},
        {'entry': 'c11_long', 'params': {0: 200}},
    ]},
    'C12': {'jobs': [
        {'entry': 'c12_any', 'params': {0: 3, 1: 3, 2: 5, 3: 0, 4: 0}},
        {'entry': 'c12_subsets', 'params': {0: 3, 1: 3}},
        {'entry': 'c12_grow', 'params': {0: 3, 1: 3, 2: 2, 3: 2}},
        {'entry': 'c12_chain', 'params': {0: 4}},
        {'entry': 'c12_long', 'params': {0: 300}},
    ]},
    'C13': {'jobs': [
        {'entry': 'c13_small_i64', 'params': {0: 3, 1: 3, 2: 0}, 'opts': FS},
        {'entry': 'c13_small_u8', 'params': {0: 3, 1: 2, 2: 1}, 'opts': FS},
        {'entry': 'c13_small_u64', 'params': {0: 3, 1: 2, 2: 1}, 'opts': FS},
        {'entry': 'c13_small_i32', 'params': {0: 4, 1: 2, 2: 0}, 'opts': FS},
    ] + [{'entry': 'c13_skeletons', 'params': {0: k, 1: 1 if k == 3 else 2}, 'opts': FS} for k in range(7)] + [
        {'entry': 'c13_extreme', 'params': {}, 'opts': FS},
        {'entry': 'c13_panics', 'params': {0: 3}},
        {'entry': 'c13_long', 'params': {0: 300}, 'opts': FS},
    ]},
    'C14': {'jobs': [
        {'entry': 'c14_any', 'params': {0: 3, 1: 4}},
        {'entry': 'c14_subsets', 'params': {0: 4}},
    ] + [{'entry': 'c14_skeletons', 'params': {0: k}} for k in range(4)] + [
        {'entry': 'c14_ties', 'params': {}},
        {'entry': 'c14_long', 'params': {0: 300}},
    ]},
    'C15': {'jobs': [
        {'entry': 'c15_any', 'params': {0: 3, 1: 4, 2: 0}},
        {'entry': 'c15_subsets', 'params': {0: 4, 1: 3}},
        {'entry': 'c15_chords', 'params': {0: 7, 1: 2}},
        {'entry': 'c15_long', 'params': {0: 300}},
    ]},
    'C16': {'jobs': [
        {'entry': 'c16_any', 'params': {0: 7, 1: 0}},
        {'entry': 'c16_bytes', 'params': {0: 5, 1: 0}},
        {'entry': 'c16_binary', 'params': {0: 10, 1: 0}},
        {'entry': 'c16_periodic', 'params': {0: 16, 1: 5}},
        {'entry': 'c16_long', 'params': {0: 300}},
    ]},
    'C17': {'jobs': [
        {'entry': 'c17_any', 'params': {0: 7, 1: 0}},
        {'entry': 'c17_bytes', 'params': {0: 5, 1: 0}},
        {'entry': 'c17_binary', 'params': {0: 10, 1: 0}},
        {'entry': 'c17_periodic', 'params': {0: 16, 1: 5}},
        {'entry': 'c17_long', 'params': {0: 300}},
    ]},
    'C18': {'jobs': [
        {'entry': 'c18_binary', 'params': {0: 2, 1: 3, 2: 5}},
        {'entry': 'c18_ternary', 'params': {0: 2, 1: 2, 2: 4}},
        {'entry': 'c18_letters', 'params': {0: 2, 1: 2, 2: 3}},
        {'entry': 'c18_offsets', 'params': {0: 2, 1: 2, 2: 3}},
        {'entry': 'c18_nested', 'params': {0: 3, 1: 5}},
        {'entry': 'c18_chain', 'params': {0: 4, 1: 1, 2: 1}},
        {'entry': 'c18_long', 'params': {0: 120, 1: 40}},
        {'entry': 'c18_panics', 'params': {}},
    ]},
    'C27': {'jobs': [
        {'entry': 'c27_arity', 'params': {0: 4}},
        {'entry': 'c27_zero', 'params': {0: 6}},
        {'entry': 'c27_deep', 'params': {0: 60}},
        {'entry': 'c27_search', 'params': {0: 3}},
        {'entry': 'c27_owned', 'params': {0: 4}},
    ]},
    'C28': {'jobs': [
        {'entry': 'c28_lg', 'params': {}},
        {'entry': 'c28_ceil_lg', 'params': {}},
    ]},
    'C29': {'jobs': [
        {'entry': 'c29_order', 'params': {}},
        {'entry': 'c29_sums', 'params': {}},
        {'entry': 'c29_units', 'params': {}},
        {'entry': 'c29_products', 'params': {}},
        {'entry': 'c29_scaled', 'params': {}},
        {'entry': 'c29_product_associative', 'params': {}},
    ]},
    'C30': {'jobs': [
        {'entry': 'c30_safe_mod', 'params': {}, 'opts': DIV},
        {'entry': 'c30_safe_mod_extremes', 'params': {}, 'opts': DIV},
        {'entry': 'c30_safe_mod_any_modulus', 'params': {}, 'opts': {'div': True, 'split-div': 4}},
        {'entry': 'c30_inv_gcd', 'params': {0: 64}, 'opts': DIV},
        {'entry': 'c30_inv_gcd_scaled', 'params': {0: 24}, 'opts': DIV},
        {'entry': 'c30_inv_gcd_large', 'params': {}, 'opts': DIV},
        {'entry': 'c30_pow_mod', 'params': {0: 7, 1: 6}, 'opts': DIV},
        {'entry': 'c30_pow_window', 'params': {0: 4, 1: 5}, 'opts': DIV},
        {'entry': 'c30_pow_large', 'params': {0: 24}, 'opts': DIV},
        {'entry': 'c30_mul_mod', 'params': {}, 'opts': DIV},
    ]},
    'C19': {'jobs': [
        {'entry': 'c19_arith', 'params': {}, 'opts': DIVI},
        {'entry': 'c19_product_known', 'params': {}, 'opts': DIVI},
        {'entry': 'c19_folds', 'params': {0: 4}, 'opts': DIVI},
        {'entry': 'c19_long_folds', 'params': {0: 40}, 'opts': DIVI},
        {'entry': 'c19_integers', 'params': {}, 'opts': DIVI},
        {'entry': 'c19_creation', 'params': {}, 'opts': DIVI},
        {'entry': 'c19_wide_ends', 'params': {}, 'opts': DIVI},
    ]},
    'C20': {'jobs': [
        {'entry': 'c20_arith', 'params': {}, 'opts': DIVI},
        {'entry': 'c20_product_known', 'params': {}, 'opts': DIVI},
        {'entry': 'c20_folds', 'params': {0: 3}, 'opts': DIVI},
        {'entry': 'c20_long_folds', 'params': {0: 40}, 'opts': DIVI},
        {'entry': 'c20_integers', 'params': {}, 'opts': DIVI},
        {'entry': 'c20_creation', 'params': {}, 'opts': DIVI},
        {'entry': 'c20_wide_ends', 'params': {}, 'opts': DIVI},
        {'entry': 'c20_initial', 'params': {}, 'opts': DIVI},
        {'entry': 'c20_history', 'params': {0: 2}, 'opts': DIVI},
        {'entry': 'c20_any_modulus', 'params': {0: 4}, 'opts': {'div': True, 'split-div': 6}},
        {'entry': 'c20_zero', 'params': {}, 'opts': DIVI},
    ]},
    'C23': {'jobs': [
        {'entry': 'c23_gcd', 'params': {0: 24}, 'opts': DIVI},
        {'entry': 'c23_scaled', 'params': {0: 8}, 'opts': DIVI},
        {'entry': 'c23_chain', 'params': {0: 30}, 'opts': DIVI},
        {'entry': 'c23_lcm', 'params': {0: 16}, 'opts': DIVI},
        {'entry': 'c23_ex_gcd', 'params': {0: 16}, 'opts': DIVI},
        {'entry': 'c23_ex_scaled', 'params': {0: 7}, 'opts': DIVI},
        {'entry': 'c23_extremes', 'params': {}, 'opts': DIVI},
    ]},
    'C24': {'jobs': [
        {'entry': 'c24_one', 'params': {0: 16}, 'opts': DIVI},
        {'entry': 'c24_two', 'params': {0: 6, 1: 1}, 'opts': DIVI, 'thorough': {'params': {0: 9, 1: 1}}},
        {'entry': 'c24_three', 'params': {0: 3, 1: 1}, 'opts': DIVI, 'thorough': {'params': {0: 4, 1: 1}}},
        {'entry': 'c24_large', 'params': {}, 'opts': DIVI},
        {'entry': 'c24_extremes', 'params': {}, 'opts': DIVI},
    ]},
    'C22': {'jobs': [
        {'entry': 'c22_default', 'params': {}, 'opts': DIVI},
        {'entry': 'c22_small', 'params': {0: 6}, 'opts': DIVI},
        {'entry': 'c22_window', 'params': {0: 3}, 'opts': DIVI, 'thorough': {'params': {0: 5}}},
        {'entry': 'c22_dynamic', 'params': {0: 6, 1: 4, 2: 2}, 'opts': DIVI, 'thorough': {'params': {0: 9, 1: 5, 2: 3}}},
        {'entry': 'c22_own', 'params': {0: 5}, 'opts': DIVI},
        {'entry': 'c22_large', 'params': {0: 24}, 'opts': DIVI, 'thorough': {'params': {0: 40}}},
        {'entry': 'c22_sparse', 'params': {}, 'opts': DIVI},
    ]},
    'C21': {'jobs': [
        {'entry': 'c21_prime', 'params': {}, 'opts': DIVI},
        {'entry': 'c21_composite', 'params': {}, 'opts': DIVI},
        {'entry': 'c21_dynamic', 'params': {0: 32}, 'opts': DIVI, 'thorough': {'params': {0: 64}}},
        {'entry': 'c21_division', 'params': {}, 'opts': DIVI},
        {'entry': 'c21_division_dynamic', 'params': {0: 30}, 'opts': DIVI},
        {'entry': 'c21_integers', 'params': {0: 16}, 'opts': DIVI},
        {'entry': 'c21_large', 'params': {}, 'opts': DIVI},
        {'entry': 'c21_large_dynamic', 'params': {}, 'opts': DIVI},
        {'entry': 'c21_scaled', 'params': {0: 30}, 'opts': DIVI},
    ]},
    'C25': {'jobs': [
        {'entry': 'c25_small', 'params': {0: 12}, 'opts': DIVI},
        {'entry': 'c25_large', 'params': {0: 1, 1: 40}, 'opts': DIVI, 'thorough': {'params': {0: 3, 1: 100}}},
        {'entry': 'c25_beyond', 'params': {0: 10}, 'opts': DIVI, 'thorough': {'params': {0: 60}}},
    ]},
    'C26': {'jobs': [
        {'entry': 'c26_ascii', 'params': {0: 5}, 'thorough': {'params': {0: 7}}},
        {'entry': 'c26_unicode', 'params': {0: 3}, 'thorough': {'params': {0: 4}}},
        {'entry': 'c26_i32', 'params': {}, 'opts': DIVI},
        {'entry': 'c26_i64', 'params': {}, 'opts': DIVI},
        {'entry': 'c26_usize', 'params': {}, 'opts': DIVI},
        {'entry': 'c26_others', 'params': {}, 'opts': DIVI},
        {'entry': 'c26_no_value', 'params': {}, 'opts': DIVI},
        {'entry': 'c26_calls', 'params': {0: 3}, 'opts': DIVI, 'thorough': {'params': {0: 4}}},
    ]},
    'C32': {'lto': True, 'jobs': [
        {'entry': 'c32_print', 'params': {0: 1, 1: 2}, 'opts': DIVI, 'thorough': {'params': {0: 1, 1: 4}}},
        {'entry': 'c32_back', 'params': {0: 1, 1: 2}, 'opts': DIVI, 'thorough': {'params': {0: 1, 1: 4}}},
        {'entry': 'c32_parse', 'params': {0: 4}, 'opts': DIVI, 'thorough': {'params': {0: 6}}},
        {'entry': 'c32_hash', 'params': {}, 'opts': DIVI},
    ]},
    'C33': {'lto': True, 'also_encoded': ['src/misc/debug.rs: macros de! and debug_single!, expanded in the harness, dev and release variant'], 'jobs': [
        {'entry': e, 'params': {}, 'opts': DIVI, 'release': r}
        for r in (False, True) for e in ('c33_effects', 'c33_mutation', 'c33_values', 'c33_nested')
    ]},
    'C31': {'jobs': [
        {'entry': 'c31_not_odd', 'params': {}, 'opts': DIVI},
        {'entry': 'c31_small', 'params': {0: 12}, 'opts': DIVI, 'thorough': {'params': {0: 15}}},
        {'entry': 'c31_near', 'params': {0: 7}, 'opts': DIVI, 'thorough': {'params': {0: 10}}},
        {'entry': 'c31_two_bases', 'params': {}, 'opts': DIVI},
        {'entry': 'c31_composites', 'params': {}, 'opts': DIVI},
        {'entry': 'c31_root_small', 'params': {0: 11}, 'opts': DIVI, 'thorough': {'params': {0: 14}}},
        {'entry': 'c31_root_large', 'params': {}, 'opts': DIVI},
        {'entry': 'c31_root_decisive', 'params': {}, 'opts': DIVI},
    ]},
}

import texts
texts.apply(JOBS)


def load_known():
    """known: property=<id> entry=<harness> msg=<text>  |  what fails"""
    p = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'known_findings.txt')
    out = []
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('known: '):
                head, _, text = l[7:].partition('|')
                d = dict(x.split('=', 1) for x in head.split(' ') if '=' in x)
                out.append((d, text.strip()))
    return out


def match_known(known, prop, entry, msg):
    for d, text in known:
        if d.get('property') == prop and d.get('entry') == entry and msg.replace(' ', '_') == d.get('msg'):
            return text
    return None

NOT_APPLICABLE = {}

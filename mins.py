# Least number of observed events per quick run (written by tools/make_mins.py); fewer makes a run inconclusive.
MINS = {
    'C01': {'and': 25734, 'and-n': 10200, 'blocks_placed': 4853, 'built': 11367, 'collect_garbage': 6917, 'drop': 47742, 'exhaustive_n2_ops': 1709952, 'exhaustive_n3_ops': 1459441, 'families': 18067, 'handle_copies': 5086, 'handles_checked': 96980, 'ite': 46466, 'nary': 103, 'neg_projection': 10187, 'negate': 25761, 'nodes_checked': 238993, 'nonzero_labels': 170229, 'or': 25620, 'or-n': 10255, 'pool_checks': 2894, 'projection': 25681, 'results': 1251, 'xor': 25766, 'xor-n': 10206},
    'C02': {'and': 21383, 'and-n': 8541, 'blocks_placed': 4376, 'built': 8841, 'collect_garbage': 10843, 'drop': 64706, 'families': 14987, 'handle_comparisons': 4761688, 'handle_copies': 4266, 'handles_checked': 203883, 'ite': 38374, 'laws': 6487, 'limit_granted': 15, 'limit_refused': 23, 'limited': 38, 'nary': 55, 'neg_projection': 8543, 'negate': 21398, 'nodes_checked': 197699, 'nonzero_labels': 141276, 'or': 21422, 'or-n': 8519, 'pool_checks': 12892, 'projection': 21336, 'queries': 17, 'rebase': 36, 'recombined': 197, 'refinds': 2489300, 'results': 876, 'stored': 16, 'survivors_found': 2452569, 'wide_nodes': 2262758, 'xor': 21318, 'xor-n': 8567},
    'C03': {'all_false': 59060, 'and': 8979, 'and-n': 3583, 'at_least': 59168, 'at_least_one': 59253, 'at_most': 59109, 'at_most_one': 59105, 'blocks_placed': 9347, 'bound_exceeds_length': 129905, 'built': 3570, 'cardinality': 59126, 'collect_garbage': 7822, 'drop': 2311, 'families': 6244, 'handle_copies': 1810, 'handles_checked': 286228, 'ite': 16167, 'length_one': 61786, 'neg_projection': 3567, 'negate': 8923, 'nodes_checked': 164857, 'nonzero_labels': 266034, 'or': 8971, 'or-n': 3615, 'pool_checks': 7176, 'projection': 9007, 'simplex': 59167, 'symmetric_functions': 2840, 'symmetric_states': 6756136, 'xor': 8976, 'xor-n': 3593},
    'C04': {'and': 7216, 'and-n': 2867, 'blocks_placed': 3949, 'built': 3747, 'collect_garbage': 29962, 'drop': 54740, 'families': 5044, 'handle_copies': 1422, 'handles_checked': 44261, 'ite': 12975, 'limit_equal': 150080, 'limit_granted': 238399, 'limit_one_above': 109352, 'limit_refused': 176572, 'limited': 2778, 'limited_calls': 412174, 'nary': 45, 'neg_projection': 2848, 'negate': 7229, 'nodes_checked': 151210, 'nonzero_labels': 193030, 'or': 7179, 'or-n': 2834, 'pool_checks': 3448, 'projection': 7152, 'rebase': 31, 'results': 2050, 'too_large': 13, 'xor': 7215, 'xor-n': 2877},
    'C05': {'and': 1458, 'and-n': 565, 'blocks_placed': 3694, 'built': 941, 'collect_garbage': 4752, 'drop': 40197, 'families': 996, 'handle_copies': 280, 'handles_checked': 43268, 'ite': 2595, 'limited': 11, 'nary': 15, 'neg_projection': 586, 'negate': 1431, 'nodes_checked': 180469, 'nonzero_labels': 49986, 'or': 1425, 'or-n': 550, 'pool_checks': 1960, 'projection': 1418, 'rebase': 48401, 'rebase_constant': 13980, 'rebase_identity': 26715, 'rebase_map': 31815, 'rebase_vector': 15950, 'results': 1129, 'shifts': 248, 'variables_created': 62, 'variables_created_by_rebase': 420, 'xor': 1464, 'xor-n': 581},
    'C06': {'and': 7354, 'and-n': 2917, 'blocks_placed': 2772, 'build': 298, 'built': 5847, 'coll_add': 2245, 'coll_and': 234, 'coll_and_nary': 150, 'coll_copies': 286, 'coll_limited': 489, 'coll_or_var': 156, 'coll_queries': 1916, 'coll_rebase': 377, 'coll_remove': 72, 'coll_values': 54, 'collect_garbage': 45124, 'counting': 1461, 'drop': 94383, 'entries_checked': 3843, 'families': 5105, 'handle_copies': 1449, 'handles_checked': 220733, 'inner_handles_checked': 48623, 'int_overload': 211, 'int_overload_same': 162, 'ite': 13323, 'limit_granted': 12, 'limit_refused': 14, 'limited': 1002, 'nary': 35, 'neg_projection': 2980, 'negate': 7357, 'nodes_checked': 1189431, 'nonzero_labels': 126323, 'or': 7371, 'or-n': 2947, 'pool_checks': 24000, 'projection': 7373, 'queries': 1479, 'rebase': 1004, 'redo': 43890, 'results': 723, 'side_steps': 9708, 'xor': 7421, 'xor-n': 2924},
    'C07': {'and': 16408, 'and-n': 6566, 'blocks_placed': 6075, 'build': 584, 'built': 8161, 'chains': 1368, 'coll_add': 4526, 'coll_and': 488, 'coll_and_nary': 283, 'coll_copies': 571, 'coll_limited': 974, 'coll_or_var': 325, 'coll_queries': 3916, 'coll_rebase': 777, 'coll_remove': 163, 'coll_values': 117, 'collect_garbage': 58870, 'collections': 38048, 'counting': 2957, 'cycles': 1001, 'drop': 164265, 'entries_checked': 7764, 'exact_counts': 57927, 'families': 11411, 'handle_copies': 3274, 'handles_checked': 27605, 'int_overload': 422, 'int_overload_same': 322, 'ite': 29526, 'limited': 1973, 'nary': 20, 'neg_projection': 6582, 'negate': 16465, 'nodes_checked': 30613, 'nonzero_labels': 136611, 'or': 16492, 'or-n': 6630, 'pool_checks': 3330, 'projection': 16427, 'queries': 2954, 'rebase': 1972, 'rebuilt_nodes': 546607, 'rebuilt_on_old_storage': 546607, 'results': 917, 'rounds': 38048, 'side_steps': 19587, 'table_nodes': 11884532, 'xor': 16393, 'xor-n': 6561},
    'C08': {'and': 22189, 'and-n': 8936, 'blocks_placed': 4474, 'build': 871, 'built': 10868, 'coll_add': 6762, 'coll_and': 733, 'coll_and_nary': 439, 'coll_copies': 887, 'coll_limited': 1462, 'coll_or_var': 507, 'coll_queries': 5884, 'coll_rebase': 1189, 'coll_remove': 222, 'coll_values': 169, 'collect_garbage': 68739, 'counting': 4389, 'drop': 246751, 'entries_checked': 11716, 'families': 15457, 'handle_copies': 4441, 'handle_lifecycles': 253235, 'int_overload': 638, 'int_overload_same': 500, 'ite': 40026, 'limit_refused': 16, 'limited': 2972, 'nary': 31, 'neg_projection': 8864, 'negate': 22279, 'nonzero_labels': 196147, 'or': 22198, 'or-n': 8847, 'pool_checks': 238, 'projection': 22154, 'queries': 4515, 'rebase': 2923, 'refcounts_checked': 1444680, 'results': 668, 'side_steps': 29413, 'stored': 90, 'xor': 22317, 'xor-n': 8862},
    'C09': {'and': 9356, 'and-n': 3728, 'bfs': 197671, 'blocks_placed': 5831, 'built': 4859, 'chains': 232, 'collect_garbage': 4783, 'drop': 37323, 'exactly_one_false': 81003, 'exactly_one_true': 116668, 'families': 6535, 'handle_copies': 1859, 'handles_checked': 65151, 'ite': 17005, 'marked_diagrams': 197671, 'neg_projection': 3766, 'negate': 9414, 'nodes_checked': 312544, 'nonzero_labels': 71690, 'nr_nodes': 197671, 'or': 9348, 'or-n': 3774, 'pool_checks': 3407, 'postorder': 197671, 'projection': 9416, 'results': 259, 'variables': 197671, 'xor': 9402, 'xor-n': 3764},
    'C10': {'and': 8104, 'and-n': 6734, 'arcs_set_again': 69628, 'blocks_placed': 2746, 'built': 26829, 'coll_add': 9660, 'coll_and': 5160, 'coll_and_nary': 3129, 'coll_export': 15, 'coll_or_var': 3540, 'coll_remove': 1763, 'coll_values': 920, 'copies_checked': 70, 'drop': 603, 'entries_checked': 121819, 'entries_made': 294, 'families': 1581, 'graphs': 35139, 'graphviz': 11676, 'graphviz_constant': 11427, 'handle_copies': 460, 'handles_checked': 22109, 'int_overload': 4774, 'int_overload_same': 1191, 'ite': 4087, 'nary_not_constant': 10, 'neg_projection': 900, 'negate': 2294, 'nodes_checked': 16575, 'nonzero_labels': 126469, 'or': 2239, 'or-n': 908, 'or_var': 5908, 'pool_checks': 1278, 'printed': 6154, 'projection': 2293, 'rebase': 8801, 'refused': 753, 'remove': 2913, 'results': 336, 'xor': 2278, 'xor-n': 911},
    'C11': {'add_variable': 12084, 'and': 14079, 'blocks_placed': 10811, 'built': 196, 'collect_garbage': 7414, 'drop': 47626, 'growing_projection': 7039, 'handles_checked': 135103, 'imports': 207, 'ite': 21164, 'limit_granted': 89, 'limit_refused': 104, 'limited': 194, 'many': 574, 'negate': 21230, 'nodes_checked': 68880, 'nonzero_labels': 60382, 'or': 14144, 'pool_checks': 9328, 'rebase': 210, 'results': 1330, 'variables_created': 77, 'xor': 14137},
    'C12': {'and': 5602, 'and-n': 2257, 'blocks_placed': 4441, 'build': 2949, 'built': 2549, 'coll_add': 13998, 'coll_and': 5648, 'coll_and_nary': 3305, 'coll_copies': 3012, 'coll_export': 33, 'coll_limited': 5881, 'coll_or_var': 3795, 'coll_queries': 8954, 'coll_rebase': 4497, 'coll_remove': 3693, 'coll_values': 908, 'collect_garbage': 7428, 'copies_checked': 65, 'counting': 8857, 'drop': 48099, 'entries_checked': 59509, 'entries_made': 285, 'families': 3963, 'granted': 22, 'handle_copies': 1111, 'handles_checked': 32529, 'int_overload': 5036, 'int_overload_same': 1025, 'ite': 10187, 'large_steps': 249, 'leak_checked_collections': 1734, 'leak_checked_lifetimes': 1075, 'limited': 5964, 'mix_steps': 148183, 'nary': 13, 'nary_not_constant': 33, 'neg_projection': 2252, 'negate': 5523, 'nodes_checked': 37054, 'nonzero_labels': 220567, 'or': 5639, 'or-n': 2253, 'other_manager': 11, 'pool_checks': 1565, 'projection': 5763, 'queries': 8931, 'rebase': 6065, 'refused': 13, 'results': 369, 'xor': 5725, 'xor-n': 2226},
    'C13': {'and': 7066, 'and-n': 2805, 'blocks_placed': 5049, 'build': 3696, 'built': 3256, 'coll_add': 16270, 'coll_and': 6727, 'coll_and_nary': 3982, 'coll_copies': 3655, 'coll_export': 22, 'coll_limited': 7451, 'coll_or_var': 4519, 'coll_queries': 11137, 'coll_rebase': 5540, 'coll_remove': 3705, 'coll_values': 1186, 'collect_garbage': 9498, 'copies_checked': 43, 'counting': 11075, 'drop': 47574, 'entries_checked': 81035, 'entries_made': 354, 'families': 4926, 'granted': 16, 'handle_copies': 1411, 'handles_checked': 47212, 'int_overload': 5812, 'int_overload_same': 1631, 'interleaved_histories': 915, 'ite': 12768, 'large_thread_groups': 20, 'limit_refused': 10, 'limited': 7439, 'managers_replaced': 2633, 'nary': 25, 'nary_not_constant': 23, 'neg_projection': 2847, 'negate': 7085, 'nodes_checked': 21407, 'nonzero_labels': 230580, 'or': 7180, 'or-n': 2855, 'pool_checks': 2995, 'projection': 7032, 'queries': 11150, 'rebase': 7467, 'refused': 10, 'results': 742, 'switches': 55832, 'thread_groups': 126, 'thread_steps': 34098, 'threads': 497, 'transfers': 10172, 'xor': 7014, 'xor-n': 2824},
    'C14': {'and': 3595, 'and-n': 4237, 'arcs_set_again': 36034, 'blocks_placed': 7682, 'built': 13266, 'coll_add': 15906, 'coll_and': 1902, 'coll_and_nary': 1122, 'coll_export': 392, 'coll_or_var': 1336, 'coll_rebase': 10, 'coll_remove': 1187, 'coll_values': 324, 'collect_garbage': 2057, 'copies_checked': 14, 'drop': 4271, 'entries_checked': 85182, 'entries_made': 425, 'exports': 24728, 'families': 415, 'granted': 20, 'graphs': 1007, 'handle_copies': 115, 'handles_checked': 5103, 'instruction_lists': 20547, 'int_overload': 2286, 'int_overload_same': 432, 'ite': 1086, 'long_entries': 219, 'many_entries': 12915, 'nary_not_constant': 10, 'neg_projection': 248, 'negate': 612, 'nodes_checked': 6238, 'nonzero_labels': 97668, 'or': 604, 'or-n': 236, 'or_var': 3012, 'other_manager': 7527, 'pool_checks': 769, 'projection': 605, 'rebase': 2978, 'refused': 469, 'remove': 2018, 'results': 392, 'xor': 617, 'xor-n': 241},
    'C15': {'and': 5608, 'and-n': 13003, 'arcs_set_again': 23772, 'blocks_placed': 2879, 'built': 8771, 'chains': 1208, 'coll_add': 31398, 'coll_and': 246, 'coll_and_nary': 130, 'coll_or_var': 5230, 'coll_remove': 4222, 'entries_checked': 199056, 'entries_made': 382, 'entry_and': 5196, 'few': 22356, 'granted': 59305, 'int_overload': 11519, 'int_overload_same': 1108, 'limit_exact': 1530, 'limit_one_short': 1111, 'many': 7483, 'nary_not_constant': 130, 'nonzero_labels': 440813, 'or_var': 2786, 'pool_checks': 22, 'rebase': 1815, 'refused': 4094, 'remove': 1885, 'single': 1583, 'two': 31571, 'unsupported_length': 4179},
    'C16': {'and': 1963, 'and-n': 2004, 'arcs_set_again': 24478, 'blocks_placed': 3119, 'both_literals': 4723, 'built': 8984, 'chains': 673, 'coll_add': 32700, 'coll_and': 6142, 'coll_and_nary': 36, 'coll_export': 40, 'coll_or_var': 1129, 'coll_rebase': 28, 'coll_remove': 3514, 'coll_values': 15, 'constant_operand': 32944, 'entries_checked': 198528, 'entries_made': 1422, 'granted': 29, 'int_overload': 3655, 'int_overload_same': 460, 'literal_outside_support': 78372, 'literal_repeated': 9085, 'nary_not_constant': 36, 'no_literal': 14083, 'nonzero_labels': 455007, 'or_var': 72607, 'other_manager': 13, 'pool_checks': 90, 'rebase': 1991, 'refused': 285, 'remove': 2060, 'results': 40},
    'C17': {'and': 5022, 'and-n': 3333, 'arcs_set_again': 79312, 'blocks_placed': 2187, 'built': 29126, 'coll_add': 25420, 'coll_and': 17061, 'coll_and_nary': 5661, 'coll_export': 633, 'coll_or_var': 11907, 'coll_rebase': 41, 'coll_remove': 765, 'coll_values': 25, 'entries_checked': 199691, 'entries_made': 1063, 'entries_removed': 44614, 'granted': 111, 'int_overload': 9873, 'int_overload_same': 1794, 'many_entries': 74277, 'nary_not_constant': 54, 'nonzero_labels': 409075, 'or_var': 3327, 'other_manager': 180, 'pool_checks': 54, 'rebase': 3349, 'refused': 497, 'removals': 6824, 'remove': 13353, 'results': 633},
    'C18': {'and': 4948, 'and-n': 4957, 'arcs_set_again': 61869, 'blocks_placed': 3555, 'built': 22767, 'coll_add': 15786, 'coll_and': 1840, 'coll_and_nary': 1118, 'coll_export': 71, 'coll_or_var': 1302, 'coll_rebase': 1604, 'coll_remove': 889, 'coll_values': 321, 'copies_checked': 14, 'entries_checked': 143062, 'entries_made': 1348, 'granted': 48, 'int_overload': 2910, 'int_overload_same': 766, 'nary_not_constant': 65, 'nonzero_labels': 191335, 'or_var': 4907, 'other_manager': 23, 'pool_checks': 132, 'rebase': 47450, 'rebase_constant': 5015, 'refused': 659, 'remove': 4917, 'results': 71},
    'C19': {'and': 6514, 'and-n': 6541, 'arcs_set_again': 96159, 'blocks_placed': 2755, 'built': 33436, 'coll_add': 12348, 'coll_and': 6505, 'coll_and_nary': 3891, 'coll_export': 16, 'coll_or_var': 4471, 'coll_remove': 2174, 'coll_values': 1138, 'copies_checked': 97, 'entries_checked': 143324, 'entries_made': 742, 'int_overload': 5577, 'int_overload_same': 1501, 'nary_not_constant': 14, 'navigated_nodes': 1332555, 'nonzero_labels': 181171, 'or_var': 6576, 'rebase': 6586, 'refused': 856, 'remove': 3287, 'remove_skipped': 1133, 'reroutes': 92514, 'results': 287},
    'C20': {'and': 5903, 'and-n': 5859, 'arcs_set': 1029438, 'arcs_set_again': 103669, 'blocks_placed': 2056, 'built': 29077, 'built_diagrams': 10213, 'coll_add': 4747, 'coll_and': 2684, 'coll_and_nary': 1519, 'coll_export': 259, 'coll_or_var': 1837, 'coll_remove': 2507, 'coll_values': 449, 'copies_checked': 17, 'entries_checked': 149709, 'entries_made': 610, 'granted': 42, 'incomplete': 1352, 'int_overload': 3950, 'int_overload_same': 713, 'nonzero_labels': 235013, 'or_var': 5859, 'other_manager': 76, 'rebase': 3857, 'refused': 471, 'remove': 3950, 'remove_skipped': 1078, 'results': 259},
    'C21': {'blocks_placed': 5616, 'collections': 3944, 'lookups': 14914114, 'nodes_made': 24413416, 'variables_added': 1730180},
    'C22': {'collections': 355, 'measured_calls': 207280, 'table_nodes': 4225559},
    'C23': {'blocks_placed': 9045, 'collections': 69618, 'pages_probed': 2107, 'pages_released': 120545, 'pages_reserved': 190345, 'released': 2913178, 'reserved': 3885289, 'rounds': 69050, 'table_lookups': 6024244, 'table_nodes': 28785626},
    'C24': {'blocks_placed': 1738, 'hit': 3928811, 'inserted': 1319689, 'miss': 2046804, 'purges': 5967, 'stale_keys': 535960},
    'C25': {'blocks_placed': 1889, 'nodes_added': 1209441, 'uneven': 132485},
}

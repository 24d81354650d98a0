"""What each check builds and runs, and what its evidence says about it."""
ASAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all']
SPECS = {
    # the library under ASan and UBSan with checked operators; the harness, which only judges, is not instrumented
    'algo': dict(harness=['h_algo'], lib_flags=ASAN + ['-D_GLIBCXX_ASSERTIONS'], harness_flags=[], link_flags=ASAN),
    'int': dict(harness=['h_int'], lib_flags=ASAN + ['-D_GLIBCXX_ASSERTIONS'], harness_flags=[], link_flags=ASAN),
    'str': dict(harness=['h_str', 'h_meta'], lib_flags=ASAN + ['-D_GLIBCXX_ASSERTIONS'], harness_flags=[], link_flags=ASAN),
    # allocations that fail
    'mem': dict(harness=['h_mem'], lib_flags=ASAN + ['-D_GLIBCXX_ASSERTIONS'], harness_flags=[], link_flags=ASAN),
    # wrappers are header-only, so here the harness is instrumented as well
    'py': dict(harness=['h_py'], lib_flags=ASAN + ['-D_GLIBCXX_ASSERTIONS'], harness_flags=ASAN + ['-D_GLIBCXX_ASSERTIONS'], link_flags=ASAN),
    'pymod': dict(harness=['h_pymod'], lib_flags=ASAN + ['-D_GLIBCXX_ASSERTIONS'], harness_flags=ASAN + ['-D_GLIBCXX_ASSERTIONS'], link_flags=ASAN),
    # everything with checked iterators
    'soup': dict(harness=['h_soup', 'h_others'], lib_flags=ASAN + ['-fsanitize=float-cast-overflow', '-D_GLIBCXX_DEBUG'],
                 harness_flags=['-D_GLIBCXX_DEBUG'], link_flags=ASAN + ['-fsanitize=float-cast-overflow']),
    'plain': dict(harness=['h_soup', 'h_others'], lib_flags=[], harness_flags=[], link_flags=[], valgrind=True, cpu=600, stall=400),
    # every basic block of the library counts itself
    'cost': dict(harness=['h_cost'], lib_flags=['-fsanitize-coverage=trace-pc'], harness_flags=['-fsanitize-coverage=trace-pc'], link_flags=[]),
    'mt': dict(harness=['h_mt'], lib_flags=['-fsanitize=thread'], harness_flags=['-fsanitize=thread'], link_flags=['-fsanitize=thread']),
}
RULE = {
    'dict': 'random dictionaries (1..~60 entries over small and extreme alphabets, nested prefixes) and query sequences drawn from entries, noise and unknown symbols; a case is non-trivial when entries longer than one symbol were involved, distinct by the digest of inputs and answers',
    'builder': 'random sources (vocabularies, periodic, noise, growing alphabets) fed to a builder, every step compared with a shadow; non-trivial when at least one rebuild was judged, distinct by the digest of the history and its results',
    'model': 'random histories of accept, update, fit, parse, save and load over random sources, sizes and alphabets; non-trivial when the dictionary held entries longer than a symbol, distinct by the digest of inputs and answers',
    'text': 'random texts over random vocabularies (letters, UTF-8, spaces, upper case), character and word tokens; non-trivial when the model held entries longer than a token, distinct by digest',
}
# parts: (spec, case function, quick cases, thorough cases)
CHECKS = {
    'C01': dict(level='exploration', rule=RULE['model'], parts=[('algo', 'C01_dict', 20000, 500000), ('int', 'C01_int', 1600, 40000), ('str', 'C01_str', 1600, 40000)]),
    'C02': dict(level='exploration', rule=RULE['model'], parts=[('algo', 'C02_dict', 20000, 500000), ('int', 'C02_int', 3000, 60000)]),
    'C03': dict(level='exploration', rule=RULE['dict'], parts=[('algo', 'C03_dict', 20000, 1000000)]),
    'C04': dict(level='exploration', rule=RULE['dict'], parts=[('algo', 'C04_dict', 40000, 2000000)]),
    'C05': dict(level='exploration', rule=RULE['dict'], parts=[('algo', 'C05_dict', 40000, 2000000)]),
    'C06': dict(level='exploration', rule=RULE['dict'], parts=[('algo', 'C06_stat', 30000, 1000000)]),
    'C07': dict(level='exploration', rule=RULE['dict'], parts=[('algo', 'C07_stat', 15000, 400000), ('algo', 'C07_builder', 6000, 150000), ('int', 'C07_int', 3000, 60000)]),
    'C08': dict(level='exploration', rule=RULE['builder'], parts=[('algo', 'C08_builder', 1600, 30000), ('int', 'C08_int', 1600, 40000)]),
    'C09': dict(level='exploration', rule=RULE['builder'], parts=[('algo', 'C09_builder', 900, 20000), ('int', 'C09_int', 900, 20000)]),
    'C10': dict(level='exploration', rule=RULE['builder'], parts=[('algo', 'C10_builder', 4000, 100000)]),
    'C11': dict(level='exploration', rule=RULE['builder'], parts=[('algo', 'C11_builder', 2500, 60000)]),
    'C12': dict(level='exploration', rule=RULE['builder'], parts=[('algo', 'C12_builder', 2000, 50000)]),
    'C13': dict(level='exploration', rule=RULE['model'], parts=[('int', 'C13_int', 3500, 80000), ('str', 'C13_str', 2500, 60000)]),
    'C14': dict(level='exploration', rule=RULE['model'], parts=[('int', 'C14_int', 2500, 60000), ('str', 'C14_str', 1600, 40000)]),
    'C15': dict(level='exploration', rule=RULE['model'], parts=[('int', 'C15_int', 3000, 70000)]),
    'C16': dict(level='exploration', rule=RULE['model'], parts=[('int', 'C16_int', 5000, 120000)]),
    'C17': dict(level='exploration', rule=RULE['text'], parts=[('str', 'C17_str', 2500, 60000)]),
    'C18': dict(level='fault_enumeration', rule='random saved models; every byte at which the file can end (a sample of them above 6000 bytes), every required field absent and of each wrong type; non-trivial when the model had entries, distinct by digest',
                parts=[('int', 'C18_int', 100, 3000), ('str', 'C18_str', 100, 3000)]),
    'C19': dict(level='exploration', rule=RULE['model'], parts=[('int', 'C19_int', 500, 12000), ('int', 'C19_quality', 240, 3000), ('str', 'C19_str', 400, 8000)]),
    'C20': dict(level='exploration', rule='random sequences of encode, decode and immutable encode calls on coders and encoders over any integers (also strings as items); non-trivial when symbols repeated and were unknown, distinct by digest',
                parts=[('algo', 'C20_encoder', 30000, 800000), ('int', 'C20_coder', 30000, 800000)]),
    'C21': dict(level='exploration', rule='random texts (all bytes, long, empty) and token maps with gaps through both tokenizers; non-trivial when several tokens and repetitions were met, distinct by digest',
                parts=[('str', 'C21_tok', 60000, 1500000)]),
    'C22': dict(level='exploration', rule=RULE['text'], parts=[('int', 'C22_int', 2400, 60000), ('str', 'C22_str', 1500, 40000)]),
    'C23': dict(level='exploration', rule='random sequences of calls over a pool of live objects of all classes, with hostile arguments, and the histories of all other checks, under ASan, UBSan and checked containers and iterators; distinct by digest',
                parts=[('soup', 'C23_soup', 500, 12000), ('soup', 'C23_all', 600, 14000)]),
    'C24': dict(level='exploration', rule='random sequences of calls over a pool of live objects, and small histories of other checks, under valgrind memcheck with leak checking; distinct by digest',
                parts=[('plain', 'C24_soup', 160, 5000), ('plain', 'C24_all', 272, 6000)]),
    'C25': dict(level='exploration', rule='random histories repeated in one process with other verbosity and beside another model, and in a second process with other memory contents and other work before; distinct by digest', twice=True,
                parts=[('int', 'C25_int', 240, 6000), ('str', 'C25_str', 240, 6000)]),
    'C26': dict(level='exploration', rule='2 to 6 threads with random histories of their own, or reading one model, started together with random pauses, under ThreadSanitizer, results compared with the sequential ones; distinct by digest',
                parts=[('mt', 'C26_own', 240, 8000), ('mt', 'C26_shared', 600, 20000)]),
    'C27': dict(level='fault_enumeration', rule='random data sets; fit and transform interrupted at every (sampled for long runs) termination point; non-trivial when a fit was interrupted in the middle, distinct by digest',
                parts=[('int', 'C27_int', 1000, 25000)]),
    'C28': dict(level='exploration', rule='random parameter vectors (1..60 components, values from 1 to 1e6), many samples each; distinct by digest', parts=[('algo', 'C28_dirichlet', 30000, 1000000)]),
    'C29': dict(level='exploration', rule='random vocabularies and texts made of them, streamed or fitted; non-trivial when words longer than one symbol were to be found, distinct by digest', parts=[('int', 'C29_int', 400, 10000)]),
    'C30': dict(level='exploration', rule='random histories through the Python wrapper classes beside the core classes, with a signal raised at a random point; distinct by digest', parts=[('py', 'C30_int', 500, 12000), ('py', 'C30_str', 400, 10000)]),
    'C32': dict(level='exploration', rule='random lives (make, train or fit, read, save, load, release) of objects of the four Python classes through what the module registers, beside the core classes; distinct by digest',
                parts=[('pymod', 'C32_module', 1200, 30000)]),
    'C33': dict(level='exploration', rule='random histories of each class that takes a verbose level, run with 0 and with a higher level while the standard streams and descriptor 1 are recorded; non-trivial when the dictionary held entries longer than a symbol, distinct by digest', parts=[('str', 'C33_print', 2500, 60000)]),
    'C34': dict(level='exploration', rule='random histories of all four model classes, their files read by an independent strict JSON reader and compared with what the model answers; non-trivial when entries longer than a token were saved, distinct by digest',
                parts=[('str', 'C34_int', 2500, 60000), ('str', 'C34_str', 2000, 50000)]),
    'C35': dict(level='exploration', rule='random histories run twice, the second time with every symbol, word or character renamed one to one; non-trivial when entries longer than a symbol were learned, distinct by digest',
                parts=[('str', 'C35_int', 1500, 40000), ('str', 'C35_builder', 2000, 50000), ('str', 'C35_str', 1200, 32000)]),
    'C36': dict(level='exploration', rule='random models, dictionaries, coders and tokenizers given small work and a multiple of it, long streams from one source, and repeated reads, while executed basic blocks, bytes asked for and bytes held are counted; distinct by digest of inputs and counts',
                parts=[('cost', 'C36_length', 350, 7000), ('cost', 'C36_size', 250, 5000), ('cost', 'C36_stream', 250, 5000), ('cost', 'C36_reads', 200, 4000), ('cost', 'C36_fit', 250, 5000)]),
    'C37': dict(level='exploration', rule='random text models of both classes made with tokenizers of the harness (chunks, trailing spaces, overlapping pairs, classes of characters, normalisation that is not idempotent, tokenizers that throw), beside integer models on the ids; non-trivial when longer entries were compared, distinct by digest',
                parts=[('str', 'C37_str', 1500, 40000)]),
    'C38': dict(level='fault_enumeration', rule='random models of all four classes, dictionaries, coders and tokenizers; in every kind of call the allocations fail one by one (all of the first forty, a sample of the later ones), for once or for the rest of the call; distinct by digest',
                parts=[('mem', 'C38_int', 200, 6000), ('mem', 'C38_str', 200, 6000), ('mem', 'C38_parts', 600, 20000), ('mem', 'C38_train', 1200, 40000)]),
    'C31': dict(level='fault_enumeration', rule='random models of all four classes; every byte (a sample above 3000) at which the file system stops taking data, and unwritable paths; distinct by digest',
                parts=[('int', 'C31_int', 80, 2400), ('str', 'C31_str', 80, 2400)]),
}

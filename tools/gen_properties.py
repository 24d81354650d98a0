import json
A='core/src/main/cpp/algorithm/'; I='core/src/main/cpp/interfaces/'; V=I+'vgram_builders/'; T=I+'tokenizers/'; B='binding/src/main/cpp/'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,obs,state=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs,hook_needed=None)))
p('C01','Segmentation is lossless at every level',
 'Concatenating the dictionary entries a parse names gives back exactly the sequence that was parsed: for a bare dictionary (weighted and greedy), for a dictionary that counts usage, for integer models (stream and fitted, decoded through their alphabet) and for text models. A model leaves out precisely the symbols it has never been shown, and nothing else; a bare dictionary leaves out nothing.',
 ['inputs','histories'],'every sequence (including empty, single-symbol, long, with unknown symbols) and every state a dictionary or model can reach through construction, training, update, save and load',
 'The tests parse a handful of short strings over letters; nothing decodes the result of a trained model, and no test uses a stream, fitted or text model at all.',
 [A+'int_dict_p.cc',A+'stat_dict_p.cc',V+'int_stream_vgram.cc',V+'int_vgram.cc',V+'string_stream_vgram.cc',V+'string_vgram.cc',I+'seq_coder.cc'],
 [('weightedParse back-tracking',A+'int_dict_p.cc:weightedParse'),('linearParse',A+'int_dict_p.cc:linearParse'),('encode_immutable drops unknown symbols',I+'seq_coder.cc')],
 ['IntDict::parse','StatDict::parse','IntStreamVGram::parse','IntVGram::transform','StringStreamVGram::parse','StringVGram::transform'])
p('C02','The chosen segmentation is the most probable one',
 'With frequencies f and a total T, an entry i of a dictionary of n entries has probability (f[i]+1)/(T+n), entries without a frequency counting as 0. The weighted parse of a sequence, and the parse/transform of a model with the frequencies it publishes, has a product of entry probabilities no smaller than that of any other way to cut the sequence into entries.',
 ['inputs','configurations'],'every dictionary in which each symbol of an entry is itself an entry, every non-negative frequency vector (also shorter than the dictionary), every sequence over known symbols, every trained model',
 'The tests compare three hand-made parses; the optimum over exponentially many segmentations is never computed.',
 [A+'int_dict_p.cc',A+'stat_dict_p.cc',V+'int_stream_vgram.cc',V+'int_vgram.cc'],
 [('dynamic programme over positions, walking from the longest match up its parents',A+'int_dict_p.cc:weightedParse')],
 ['IntDict::parse(seq, freqs, total, out)','IntStreamVGram::parse with freqs() and alphabet()'])
p('C03','Lookup finds the longest entry that is a prefix',
 'The entries of a newly made dictionary are numbered 0..size-1 in lexicographic order. Looking up a sequence returns the longest entry that is a prefix of it and is not excluded; if there is none and an exclusion set is given, it returns -1 and changes nothing. The parent of an entry is the longest other entry that is a proper prefix of it, or -1.',
 ['inputs'],'every set of distinct non-empty sequences over any integers, every query, every exclusion set, in any order of queries',
 'The tests search a few strings in one small dictionary and exclude at most a couple of entries.',
 [A+'int_dict_p.cc',A+'stat_dict_p.cc'],[('sorted table, binary search, prefix chain',A+'int_dict_p.cc:search'),('parent stack',A+'int_dict_p.cc:init')],
 ['IntDict::search/get/size/alphabet/parent','StatDict::search/get/size/alphabet/parent'])
p('C04','Dictionaries grow only by appending unknown symbols, once each',
 'Looking up or parsing a sequence whose first symbol is not covered by any entry appends that single symbol as a new last entry, exactly once however often and in whatever order unknown symbols come. The number, content and parent of every existing entry stay the same for good, later lookups find old and new entries alike, and a copy of a dictionary does not share growth with its original.',
 ['inputs','histories'],'every interleaving of lookups, weighted and greedy parses with known and unknown symbols (any integers, any order) on originals and copies',
 'The tests start from an empty dictionary and meet symbols in the order that happens to keep the table sorted.',
 [A+'int_dict_p.cc'],[('appended entries behind the sorted part',A+'int_dict_p.cc:search')],['IntDict::search, parse, size, get, parent'])
p('C05','Greedy parsing takes the longest allowed entry at every step',
 'Parsing without frequencies reads the sequence from left to right and emits at each point the longest entry that matches there and is not excluded. It skips a symbol only when no allowed entry matches there (which needs an exclusion set), and never changes the exclusion set; with an exclusion set it never changes the dictionary either.',
 ['inputs'],'every dictionary, every sequence and every exclusion set (none, some, all entries)',
 'The greedy parse is covered by a few literal examples without excluded roots.',
 [A+'int_dict_p.cc'],[('linearParse',A+'int_dict_p.cc:linearParse')],['IntDict::parse(seq, out, excludes)'])
p('C06','Usage statistics are exact',
 'After any sequence of parses and explicit updates, the frequency of an entry is exactly the number of times parses returned it plus what was added explicitly. With total usage P and c parsed symbols, the code length per symbol is (P ln P - sum f ln f)/c, and enough data has been seen for probability p exactly when P > -ln(p)/m, m being the minimum probability the dictionary was made with.',
 ['inputs','histories'],'every history of parses (with known and unknown symbols) and updates on any dictionary',
 'The tests check one code length and a few counts of single parses.',
 [A+'stat_dict_p.cc'],[('update_symbol',A+'stat_dict_p.cc:update_symbol'),('code_length_per_char',A+'stat_dict_p.cc'),('enough',A+'stat_dict_p.cc')],
 ['StatDictImpl::freq, code_length_per_char, enough'])
p('C07','Frequencies handed over with a dictionary stay with their entries',
 'When a counting dictionary, a builder or a model is made from entries and their frequencies, in whatever order they are listed, each frequency stays with its entry. A counting dictionary chooses its segmentations as if each entry had been used its initial frequency more often (with the totals to match), without reporting that as usage; a restored builder or model reports exactly the given frequency for every entry.',
 ['inputs','configurations'],'every list of distinct entries in any order, any frequencies, followed by any parses',
 'No test passes unsorted entries with distinguishable frequencies, and none restores a model.',
 [A+'stat_dict_p.cc',A+'int_vgram_builder_p.cc',V+'int_stream_vgram.cc'],[('seeded constructor',A+'stat_dict_p.cc:StatDictImpl(seqs, min_prob, init_freqs)'),('restoring constructors',A+'int_vgram_builder_p.cc; '+V+'int_stream_vgram.cc')],
 ['StatDictImpl::parse/freq','IntVGramBuilderImpl::result_freqs','IntStreamVGram(coder, freqs, alphabet, ...)::freqs'])
p('C08','A learned dictionary holds only what occurred, each entry once',
 'At every moment the dictionary a builder or model publishes has no duplicate and no empty entry, and every entry longer than one symbol occurs contiguously in a single accepted sequence (or was in the dictionary training started from). Right after a rebuild the dictionary contains, as single entries, all symbols accepted so far, however small the size limit is.',
 ['inputs','histories','configurations'],'every training history, size limit and alphabet (given, streamed, met late)',
 'The tests look at final dictionaries of three synthetic sources only.',
 [A+'int_vgram_builder_p.cc',A+'stat_dict_p.cc'],[('expand joins adjacent entries of a parse',A+'stat_dict_p.cc:expand'),('symbols always score highest',A+'stat_dict_p.cc:stat_items')],
 ['IntVGramBuilder::result','IntStreamVGram::alphabet'])
p('C09','The dictionary respects its size limit',
 'Once a model has gone through a complete rebuild (extension and cut), its dictionary never has more entries than the requested size, or than the number of distinct symbols if that is larger. This holds for stream, fitted, text and loaded models, as long as no symbol was met for the first time after that rebuild began.',
 ['inputs','histories','configurations'],'every size (including smaller than the alphabet, 0 and 1), every corpus, any number of rebuilds',
 'No test compares the dictionary size with the limit across rebuilds or for models.',
 [A+'int_vgram_builder_p.cc',A+'stat_dict_p.cc',V+'int_stream_vgram.cc'],[('slots passed to reduce',A+'int_vgram_builder_p.cc:update'),('filter_stat_items',A+'stat_dict_p.cc')],['IntStreamVGram::alphabet().size()','IntVGramBuilder::result()->size()'])
p('C10','Extension adds the most informative adjacent pairs',
 'When a builder extends its dictionary it keeps every entry and adds joins of two entries that were adjacent in a segmentation since the last rebuild. It adds no join with negative estimated information gain, and never prefers a join to one whose gain is higher; it adds all of non-negative gain if there is room for them (1.3 times the current number of entries; for fewer than 8 entries, the size limit less the known symbols).',
 ['inputs','histories','configurations'],'every dictionary to start from, every corpus, every size limit',
 'The tests only see what survives later cuts on three sources; a wrong ranking or a lost pair does not show.',
 [A+'stat_dict_p.cc',A+'int_vgram_builder_p.cc',A+'fast_random.cc'],[('pair counts',A+'stat_dict_p.cc:parse'),('scoring and ranking',A+'stat_dict_p.cc:expand')],['IntVGramBuilder::result right after the first extension'])
p('C11','A cut keeps symbols and the entries that pay for themselves',
 'When a builder cuts its dictionary down, what remains is a subset of the extended dictionary that contains all its single symbols and no entry that went unused since the extension. It keeps no longer entry whose removal would, by the code length estimate, not lengthen the code, never prefers one to another that saves more, and drops a paying one only for lack of room.',
 ['inputs','histories','configurations'],'every extended dictionary and usage that training can produce, every size limit',
 'The tests check that known words survive; nothing checks what else stays or why something is dropped.',
 [A+'stat_dict_p.cc',A+'int_vgram_builder_p.cc'],[('stat_items, filter_stat_items, reduce',A+'stat_dict_p.cc')],['IntVGramBuilder::result right after a cut'])
p('C12','Rebuilds come when due, and the minimum probability only falls',
 'A builder rebuilds exactly at the end of the accepted sequence with which the usage since the last rebuild first exceeds -ln(0.1)/m, m being the current minimum probability (the bound being raised only after more than three rebuilds without better compression), alternating extension and cut. The minimum probability reported is -1 until the first cut; from then on it lies in (0, 0.002], never rises, and is at most the smoothed frequency of every longer entry kept by the cut.',
 ['inputs','histories'],'every training history',
 'No test observes when rebuilds happen or what probability they leave.',
 [A+'int_vgram_builder_p.cc',A+'stat_dict_p.cc'],[('accept/update',A+'int_vgram_builder_p.cc'),('min_prob_result',A+'stat_dict_p.cc:expand, reduce')],['IntVGramBuilder::result_freqs, get_min_probability after every accept'])
p('C13','After fitting, frequencies count the training data exactly',
 'When fit() completes, freqs() has one count per alphabet entry, and it is the number of times the entry occurs in a most probable segmentation of all training sequences. So for each symbol, the counts weighted by its occurrences in the entries add up to its number of occurrences in the training data.',
 ['inputs','configurations'],'every training set (with duplicates, empty sequences, rare symbols that random sampling misses), size and iteration count',
 'No test fits a model.',
 [V+'int_vgram.cc',V+'int_stream_vgram.cc'],[('recompute_freqs',V+'int_vgram.cc')],['IntVGram::freqs, alphabet','StringVGram::freqs'])
p('C14','A fitted model is frozen, and queries do not change it',
 'Once fit() has completed, calling fit() again with any data returns the same model and changes nothing. Reading a model (parse, transform, alphabet, freqs, save, in any order and number) never changes the answers of later reads.',
 ['inputs','histories'],'every fitted or stream model, every sequence of reads and repeated fits',
 'No test calls fit or reads a model twice.',
 [V+'int_vgram.cc',V+'int_stream_vgram.cc',V+'string_vgram.cc'],[('fitted_, freqs_computed_',V+'int_vgram.cc:fit')],['IntVGram and StringVGram public reads'])
p('C15','Between updates a stream model keeps its indices and frequencies',
 'A stream model can be read at any time, also before its first update. From one update to the next, alphabet() only grows at its end by single symbols and indices returned by parse keep their meaning, whatever is accepted; freqs() stays constant for the entries of the update and has one count per entry. Right after an update, freqs() accounts exactly for all symbols of a contiguous run of accepted sequences, a run that never moves backwards from update to update and, before the first cut, ends with the last accepted sequence.',
 ['inputs','histories'],'every interleaving of accept, update, parse, alphabet and freqs, across any number of rebuilds',
 'No test uses a stream model.',
 [V+'int_stream_vgram.cc',A+'int_vgram_builder_p.cc'],[('update_dict',V+'int_stream_vgram.cc'),('result snapshot',A+'int_vgram_builder_p.cc:result')],['IntStreamVGram public reads'])
p('C16','Saving and loading an integer model preserves it',
 'A stream or fitted integer model loaded from a saved file has the same alphabet in the same order, the same frequencies and the same parse/transform of every sequence as the model that was saved, and a fitted model stays fitted. Saving the loaded model again writes an equal file.',
 ['inputs','histories'],'every model state (untrained, trained, with symbols met late, interrupted, loaded before) and any integers as symbols',
 'No test saves or loads anything.',
 [I+'saver.h',I+'loader.h',V+'int_stream_vgram.cc',V+'int_vgram.cc'],[('Saver',I+'saver.h'),('Loader',I+'loader.h'),('restoring constructors',V+'int_stream_vgram.cc, int_vgram.cc')],['save, Loader::load_int_stream_vgram, load_int_vgram'])
p('C17','Saving and loading a text model preserves it',
 'A stream or fitted text model loaded from a saved file has the same alphabet, frequencies and parse/transform of every text as the model that was saved, for character and for word tokens, with any valid UTF-8 words. Texts with new tokens accepted after loading never get mixed up with tokens known before.',
 ['inputs','histories'],'every text model state and any UTF-8 text',
 'No test saves or loads anything, or uses a text model.',
 [I+'saver.h',I+'loader.h',T+'base_tokenizer.cc',V+'string_stream_vgram.cc',V+'string_vgram.cc'],[('load_tokenizer',I+'loader.h'),('alphabet text',I+'saver.h:alphabet_to_json')],['save, Loader::load_string_stream_vgram, load_string_vgram'])
p('C18','A damaged model file is rejected',
 'Loading a file that is missing, cut off at any byte before its end, or whose size, minimum probability, fitted flags or entries (their sequence or frequency) are absent or of the wrong JSON type raises an exception. No such file ever yields a model, crashes the process or reads outside memory.',
 ['fault_sequences','inputs'],'every byte at which a saved file can end, every required field, all four loaders',
 'No test loads a file.',
 [I+'loader.h',I+'json.h'],[('JSON parser and typed access',I+'loader.h')],['Loader::load_*'])
p('C19','A loaded model goes on training correctly',
 'A loaded model that accepts more data keeps its alphabet and frequencies up to the next rebuild, keeps every symbol at its meaning and accepts new ones, stays lossless, and after rebuilds still respects the size it was saved with. Training goes on from the loaded v-grams: on data like that it was trained on, it keeps compressing about as well as before.',
 ['inputs','histories'],'every saved stream or fitted model and every continuation of its training',
 'No test restores a model.',
 [I+'loader.h',V+'int_stream_vgram.cc',A+'int_vgram_builder_p.cc'],[('restoring builder',A+'int_vgram_builder_p.cc'),('restoring model',V+'int_stream_vgram.cc')],['load, then accept/update_dict/parse/alphabet/freqs'])
p('C20','Symbol codes are a stable bijection in order of first appearance',
 'Encoding gives each distinct symbol the next code 0,1,2,... when it first appears and the same code ever after, and decoding inverts it. Encoding without learning drops exactly the unknown symbols and changes nothing; decoding an unknown code raises an exception. The generic item encoder follows the same rule.',
 ['inputs','histories'],'every sequence of encode, immutable encode and decode calls over any integers',
 'No test covers the coder.',
 [I+'seq_coder.cc',A+'list_dict.h'],[('SeqCoder',I+'seq_coder.cc'),('Encoder',A+'list_dict.h')],['SeqCoder::encode, encode_immutable, decode, code_map','Encoder::encode, size'])
p('C21','Tokenizers cut text as specified and number tokens one to one',
 'The character tokenizer keeps exactly the ASCII letters and digits, in lower case, one token each; the word tokenizer yields the maximal runs of non-space characters. Different tokens always get different non-negative ids, the same token always the same id, also for a tokenizer made from an existing token-to-id map (with gaps), whose ids it keeps; decoding ids gives back the concatenated tokens.',
 ['inputs','histories'],'every byte string, every history of transforms, every initial map',
 'No test covers the tokenizers.',
 [T+'base_tokenizer.cc',T+'char_tokenizer.cc',T+'word_tokenizer.cc'],[('transform/decode',T+'base_tokenizer.cc'),('normalize/tokenize',T+'char_tokenizer.cc, word_tokenizer.cc')],['transform, decode, normalize, tokenize'])
p('C22','Text models answer as the integer model on the tokenized text',
 'A text model gives exactly the answers of an integer model trained the same way on its tokenized texts: the same frequencies, an alphabet that spells the same entries in the same order, and segmentations that spell the same entries, joined by single spaces by transform and listed by parse. The textual form of an integer transform lists the same indices as the numeric form, or -1 for an empty result.',
 ['inputs','histories'],'every training history, every text and both kinds of tokens',
 'No test uses a text model.',
 [V+'string_vgram.cc',V+'string_stream_vgram.cc',V+'int_vgram.cc'],[('delegation',V+'string_vgram.cc, string_stream_vgram.cc'),('transform_to_string',V+'int_vgram.cc')],['StringVGram, StringStreamVGram, IntVGram public reads'])
p('C23','No memory error or undefined behaviour through the public interface',
 'No sequence of public calls (build, train, look up, parse, print, fit, transform, save, load, copy, destroy) on any class of the library, with any integers, any text and any size and frequency (of magnitude up to a billion), reads or writes outside an object, uses freed memory or an invalidated or singular iterator, overflows a signed integer, or executes other undefined behaviour.',
 ['inputs','histories','configurations'],'every sequence of public calls within each class contract',
 'The tests run without sanitizers and touch neither models nor persistence.',
 [A+'int_dict_p.cc',A+'stat_dict_p.cc',A+'int_vgram_builder_p.cc',A+'list_dict.h',A+'int_dict.cc',V+'int_vgram.cc',V+'int_stream_vgram.cc',I+'saver.h',I+'loader.h'],[('index bookkeeping between parallel vectors',A+'stat_dict_p.cc:update_symbol'),('result_freqs padding',A+'int_vgram_builder_p.cc')],['process under AddressSanitizer, UBSan and checked containers'])
p('C24','Nothing depends on uninitialised memory, and nothing leaks',
 'No branch, output or saved file depends on memory that was never written, whatever constructor an object was made with. All memory taken by dictionaries, builders, models, tokenizers and loaders is released with the objects the caller owns.',
 ['inputs','histories'],'every constructor of every class, followed by any public calls',
 'The tests do not run under a memory checker and use only some constructors.',
 [A+'stat_dict_p.cc',A+'int_vgram_builder_p.cc',V+'int_stream_vgram.cc',V+'int_vgram.cc',I+'saver.h',I+'loader.h'],[('member initialisation in every constructor','all constructors')],['process under valgrind memcheck'])
p('C25','Results depend only on the inputs, not on the process or its neighbours',
 'The same calls with the same arguments (and the same state of rand() for fit) give the same dictionaries, frequencies, segmentations and saved files in every process, whatever the memory layout, the verbosity or previous work of the process. Models that live side by side in a process do not influence each other.',
 ['histories','configurations'],'every training history, repeated in other processes, layouts, interleavings and verbosity levels',
 'No test repeats a run or interleaves two models.',
 [A+'fast_random.cc',A+'stat_dict_p.cc',A+'int_vgram_builder_p.cc',V+'int_vgram.cc'],[('locally seeded generator',A+'fast_random.cc'),('no shared mutable state','all classes')],['alphabet, freqs, parse and saved files of equal histories'])
p('C26','Independent models and concurrent reads need no locking',
 'Different models can be trained, read, saved and loaded in different threads at the same time without data race, and give the same results as alone. One model can be read (parse, transform, alphabet, freqs, save) by many threads at once without data race, with the same answers as sequentially, whatever symbols or words they contain.',
 ['schedules','inputs'],'every interleaving of threads, for integer and text models',
 'All tests are single-threaded.',
 [A+'fast_random.cc',A+'int_dict_p.cc',V+'int_stream_vgram.cc',V+'int_vgram.cc',T+'base_tokenizer.cc',I+'saver.h'],[('no globals; const reads','all classes')],['process under ThreadSanitizer'])
p('C27','Interrupting fit or transform at any point leaves a usable model',
 'If a fit is interrupted at any of its termination points it reports so (null) and never counts as complete; the model can still be read, saved and loaded, is lossless on every sequence accepted so far, and a later uninterrupted fit does the work that was left, completes and leaves frequencies that count its data exactly. An interrupted transform returns the results of a prefix of its input, each one correct.',
 ['crash_points','inputs'],'every termination point of a fit (sampling and frequency phases) and of a transform, any corpus',
 'No test fits a model, let alone interrupts one.',
 [V+'int_vgram.cc',B+'py_int_vgram_builder.h'],[('isTerminated checks',V+'int_vgram.cc:fit, recompute_freqs, transform')],['fit result, freqs, alphabet, transform'])
p('C28','Dirichlet samples lie on the simplex and follow their parameters',
 'A sample drawn for parameters a1..ak (all at least 1) has k non-negative finite components that add up to 1. Each component stays within a fixed, generous number of standard deviations of its mean ai/(a1+...+ak).',
 ['inputs'],'every parameter vector, of any length and magnitude, including counts in the millions',
 'No test covers sampling.',
 [A+'fast_random.cc'],[('normalised gamma variates',A+'fast_random.cc:next_dirichlet')],['next_dirichlet'])
p('C29','Training finds the repeated words and shortens the text',
 'A model fitted or streamed on plenty of text made of words drawn from a fixed vocabulary, with enough room in its dictionary, cuts that text into far fewer pieces than it has symbols, with a code shorter than that of the single symbols. Its dictionary contains most of the frequent words.',
 ['inputs','configurations'],'vocabularies of random distinct words, any symbols, any order of text',
 'The three existing sources are fixed; on others, and for models as opposed to builders, nothing is checked.',
 [A+'int_vgram_builder_p.cc',A+'stat_dict_p.cc',V+'int_vgram.cc'],[('the extend and cut loop',A+'int_vgram_builder_p.cc:update')],['alphabet, freqs, transform, code_length'])
p('C30','The Python wrappers answer as the models they wrap',
 'A wrapper made, fitted or loaded through the Python classes is a real object of the wrapper class and gives the same answers as the core model in the same state. A pending signal interrupts fit and transform of a made or loaded integer wrapper at the next sequence, and wrapped models are released without memory errors.',
 ['inputs','fault_sequences'],'every model state, every point at which a signal arrives',
 'The binding has no test (pybind11 is not even needed to build the tests).',
 [B+'py_int_vgram_builder.h',B+'py_vgram_builder.h'],[('load',B+'py_int_vgram_builder.h, py_vgram_builder.h'),('isTerminated override',B+'py_int_vgram_builder.h')],['PyIntVGram, PyStringVGram'])
p('C31','A save is complete or reports its failure',
 'Saving a model either writes the complete file or raises an exception, at whatever byte the file system stops taking data. A model that cannot be represented (a word that is not UTF-8) raises an exception too and leaves an existing file untouched.',
 ['fault_sequences','crash_points'],'every byte at which writing can fail, unwritable paths, all four model classes',
 'No test saves a model or injects a fault.',
 [I+'saver.h'],[('write_to_file',I+'saver.h')],['save under a file size limit'])
p('C32','The Python module offers the documented classes and owns each object once',
 'The Python module offers IntStreamVGram, StreamVGram, IntVGram and VGram with their documented methods; called with positional, keyword or omitted arguments (size defaults to 10000, verbose to silent) they give the answers of the core models and write the same files, and fit returns the very object it was called on. Every object, whether constructed or loaded, stays valid while Python refers to it and is released exactly once, with all its memory, afterwards.',
 ['inputs','histories','configurations'],'every life of an object (construct, train or fit, read, save, load, release) and every way to pass its arguments',
 'The binding has no test and is not part of the tested build.',
 ['binding/src/main/cpp/bind_vgram.cc',B+'py_int_vgram_builder.h',B+'py_vgram_builder.h',I+'loader.h'],[('registration: holders, defaults, return policies','binding/src/main/cpp/bind_vgram.cc:PYBIND11_MODULE')],['calls through the registered module'])
p('C33','The verbose level decides what is printed and nothing else',
 'A model or builder constructed with verbose 0 prints nothing, whatever is done with it (training, updating, reading, saving). With verbose 1 or more it prints something about the learning process once an entry has been learned or a fit has gone through an iteration, and learns exactly the same dictionary, frequencies and files.',
 ['inputs','histories','configurations'],'every training history of every class, at every verbose level',
 'No test looks at the output, and none compares verbose levels.',
 [A+'int_vgram_builder_p.cc',V+'int_stream_vgram.cc',V+'int_vgram.cc',V+'string_vgram.cc',V+'string_stream_vgram.cc'],[('progress lines',A+'int_vgram_builder_p.cc:update, '+V+'int_vgram.cc:fit'),('the level handed down','constructors of all models')],['standard output and error streams, descriptor 1'])
p('C34','A saved file states what the model knows',
 'The file a model is saved to is one JSON document in the documented format. Its alphabet lists the entries of the model in order, each with its frequency and with codes which the coder of the same file maps to the entry; text is given exactly for text models and equals the text of the entry. The coder lists every symbol accepted so far once, in order of first appearance, with distinct codes. size is the size the model was made with, min_prob is -1 before the first cut and a probability of at most 0.002 afterwards, and fitted and freqs_computed are stated exactly by the classes that are fitted, however the save is called. Saving changes no answer of the model.',
 ['inputs','histories'],'every state of every model class that training, fitting, updating, saving and loading can reach, every symbol and every UTF-8 text',
 'No test saves a model; a round trip alone does not notice what save and load get wrong together, and other programs read these files.',
 [I+'saver.h',I+'seq_coder.cc',V+'int_stream_vgram.cc',V+'int_vgram.cc',V+'string_stream_vgram.cc',V+'string_vgram.cc',T+'char_tokenizer.cc',T+'word_tokenizer.cc'],
 [('dict_to_json and friends',I+'saver.h'),('to_json of the coder',I+'seq_coder.cc')],['the bytes save writes, read by an independent JSON reader'])
p('C35','Names of symbols do not matter',
 'Models see symbols only as equal or different. Training, fitting, updating and parsing after all integers (or all words, or all characters) are replaced one-to-one by others gives the same entries, frequencies, minimum probability, code length and segmentations with the names replaced in them, given the same random numbers. For bare dictionaries and builders, which number their entries in lexicographic order, this holds for every replacement that keeps the order of symbols.',
 ['inputs','histories'],'every history of every class and every one-to-one renaming, including to negative and extreme integers, padded or non-ASCII words and characters',
 'A metamorphic relation between two runs; tests contain single runs over small letters.',
 [A+'int_dict_p.cc',A+'stat_dict_p.cc',A+'int_vgram_builder_p.cc',I+'seq_coder.cc',V+'int_stream_vgram.cc',V+'int_vgram.cc',V+'string_stream_vgram.cc',V+'string_vgram.cc',T+'char_tokenizer.cc',T+'word_tokenizer.cc'],
 [('codes by first appearance',I+'seq_coder.cc:encode'),('tokens to ids',T+'base_tokenizer.cc')],['alphabet, freqs, parse, transform, code_length, saved files of both runs'])
p('C36','Work and memory stay in proportion to the data',
 'The work of parsing, accepting (between rebuilds), tokenizing or encoding one sequence grows linearly with its length and about logarithmically with the number of entries of the dictionary, as one lookup does. Making, saving and loading a model takes work in proportion to its entries, and fitting or transforming a list in proportion to the number of its sequences. On an endless stream drawn from fixed symbols neither the work per sequence nor the memory a model holds grows with the length of the history, and reads and updates without new data leave no memory behind.',
 ['inputs','histories'],'long sequences, large dictionaries, long lists and long histories of every class',
 'Tests run tiny inputs and measure nothing; growth shows only between runs of different size.',
 [A+'int_dict_p.cc',A+'stat_dict_p.cc',A+'int_vgram_builder_p.cc',I+'seq_coder.cc',I+'saver.h',I+'loader.h',V+'int_stream_vgram.cc',V+'int_vgram.cc',V+'string_stream_vgram.cc',V+'string_vgram.cc',T+'char_tokenizer.cc',T+'word_tokenizer.cc'],
 [('search over the remaining sequence',A+'int_dict_p.cc:weightedParse, linearParse'),('counters of pairs, dropped at every extension',A+'stat_dict_p.cc:update_symbol, expand'),('maps from names to codes',I+'seq_coder.cc; '+T+'base_tokenizer.cc')],
 ['basic blocks executed and bytes requested and held during public calls'])
p('C37','A text model works with any tokenizer it is given',
 'A text model made with a tokenizer of the user (a class derived from BaseTokenizer with its own normalize and tokenize) answers exactly as an integer model on the ids of the tokens it yields: each text is normalized once, then cut, whatever the tokens look like (several characters, trailing spaces, overlapping, repeated), and entries are spelled by concatenating tokens. Several models may share one tokenizer, it lives as long as the last of them and no longer, and an exception it throws reaches the caller and leaves the model as it was before the call.',
 ['inputs','histories','fault_sequences'],'every tokenizer, every text, every training history, every call of the tokenizer that may throw',
 'No test makes a text model; the documentation invites users to write tokenizers of their own.',
 [T+'base_tokenizer.cc',V+'string_vgram.cc',V+'string_stream_vgram.cc'],[('tokens to ids and back',T+'base_tokenizer.cc'),('ownership of the tokenizer',V+'string_vgram.h, string_stream_vgram.h')],
 ['fit, transform, accept, parse, alphabet, freqs of models made with tokenizers of the harness'])
p('C38','Running out of memory is reported and does no damage',
 'If memory runs out during a call of the C++ library (an allocation throws std::bad_alloc, once or from then on until the call ends), the call ends with an exception, nothing is leaked and no memory error follows. A read or a save that failed changes no later answer; a load or a constructor that failed brings no object. After a training call that failed, the dictionary, coder, tokenizer or model can be read, trained, saved and destroyed like any other: entries and codes it held keep their numbers until the next update, every symbol has one code, which decodes to it, and at most one entry of its own, frequencies are as many as entries, and sequences of symbols accepted earlier are segmented losslessly.',
 ['fault_sequences','histories'],'every allocation of every kind of call of every class, in every state',
 'No test lets an allocation fail; the places where one can are many and each spoils something else.',
 [A+'int_dict_p.cc',A+'stat_dict_p.cc',A+'int_vgram_builder_p.cc',I+'seq_coder.cc',I+'saver.h',I+'loader.h',T+'base_tokenizer.cc',V+'int_stream_vgram.cc',V+'int_vgram.cc',V+'string_stream_vgram.cc',V+'string_vgram.cc'],
 [('appending an unknown symbol',A+'int_dict_p.cc:search'),('two maps that mirror each other',I+'seq_coder.cc:encode; '+T+'base_tokenizer.cc:transform'),('the JSON document under construction',I+'saver.h')],
 ['public calls while operator new fails, and blocks held after all objects are gone'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import collections
S=json.load(open('/root/.vp/PROPERTIES.schema.json'))
import sys
sys.path.insert(0,'/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import jsonschema
for x in P: jsonschema.validate(x,S)
print(len(P))

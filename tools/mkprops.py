"""Writes properties.jsonl (the property texts live here; run after editing)."""
import json, pathlib
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=list(observe), hook_needed=hook)))

prop('C01', 'BPE training performs greedy pair merging exactly',
 'For every table of word frequencies, each piece BPE training adds joins the adjacent pair of current pieces whose frequency-weighted adjacency count over the words is highest, and is recorded with that count, the joined text and its two parts; the pair is then replaced everywhere in the words, left to right, before the next choice. '
 'Training starts from the reserved types and the characters, and stops - without failing - exactly when the requested vocabulary size is reached, the best count is below the minimum co-evidence, or no adjacent pair is left.',
 ['inputs', 'histories'], 'all word-frequency tables, vocabulary sizes larger than the initial one and co-evidence thresholds; every step of the merge history',
 'test_bpe and test_shrink train once on one corpus and only check the size and the save/load text; no merge decision, count or stop condition is ever compared with an independent recount.',
 ['nlcodec/bpe.py', 'nlcodec/dstruct.py', 'nlcodec/codec.py'],
 [('incremental pair counts with lazily corrected max-heap', 'nlcodec/bpe.py BPELearn.learn_codes'), ('linked-list rewrite of occurrences', 'nlcodec/dstruct.py LnNode.delete')],
 [('uni, bi, bi_ixs', 'piece counts, pair counts and where each pair occurs', 'nlcodec/bpe.py BPELearn'), ('heap_dirty', 'decrements not yet applied to the heap', 'nlcodec/bpe.py learn_codes')],
 ['returned list of types', 'exceptions'])
prop('C02', 'Training is reproducible',
 'Training a vocabulary of any kind from the same data and settings yields the same types in the same order with the same frequencies and composition every time, whatever the memory layout, the string-hash seed, the wall clock, and whatever was trained before in the same process. '
 'It does not matter whether the lines arrive as a list, a one-shot iterator or an open file.',
 ['schedules', 'inputs', 'histories'], 'all corpora, all orders in which hash-ordered containers may be visited, all clock readings, all earlier calls',
 'The tests run one process with PYTHONHASHSEED=0 and never compare two trainings; object addresses, hash order and clock are not under test control.',
 ['nlcodec/bpe.py', 'nlcodec/codec.py', 'nlcodec/dstruct.py'],
 [('order in which pair occurrences are visited', 'nlcodec/bpe.py learn_codes'), ('stable sort by frequency', 'nlcodec/codec.py get_init_vocab')],
 [('bi_ixs', 'occurrences of a pair, visited when merging', 'nlcodec/bpe.py')], ['returned types', 'saved model file'])
prop('C03', 'BPE segmentation is greedy longest match',
 'For every BPE vocabulary and every line, encoding splits the whitespace-normalised line, in which every word is closed by the space marker (a line without words is the marker alone), by repeatedly taking the longest vocabulary piece starting at the current position; a character at which no piece starts becomes exactly one unknown token, and nothing is dropped, duplicated or reordered. '
 'The pieces and the integer ids returned for a line denote the same segmentation, also when several merges produced the same text.',
 ['inputs', 'configurations'], 'all vocabularies (also with pieces whose prefixes are missing, and with repeated texts) and all lines',
 'No existing test encodes a line with a BPE model and looks at the pieces.',
 ['nlcodec/codec.py', 'nlcodec/dstruct.py'],
 [('prefix trie walk with back-up to the last piece seen', 'nlcodec/codec.py BPEScheme.encode_str'), ('first type wins for repeated texts', 'nlcodec/codec.py EncoderScheme.__init__')],
 [], ['encode', 'encode_str'])
prop('C04', 'Decoding restores what was encoded',
 'For the word, character, BPE and class codecs, decoding an encoded line (as pieces or as ids) returns the line with runs of whitespace collapsed to one space and trimmed (class: only trimmed) when all its symbols are known and it contains no space marker itself. '
 'Every id produced for word, character and BPE text indexes the table and names the piece produced for the same position, and each symbol outside the vocabulary becomes exactly one unknown id while all others keep theirs.',
 ['inputs'], 'all Unicode lines, including empty ones and every kind of Unicode whitespace; known and unknown symbols in every position',
 'Round trips are only tested for the byte codec and three sentences; word, char, BPE and class encode/decode have no test.',
 ['nlcodec/codec.py'],
 [('whitespace normalisation and space marker', 'nlcodec/codec.py WordScheme/CharScheme/BPEScheme/ClassScheme encode_str, decode_str'), ('unknown lookup', 'nlcodec/codec.py EncoderScheme.encode')],
 [], ['encode', 'decode', 'encode_str', 'decode_str'])
prop('C05', 'The byte codec is lossless',
 'For every Unicode string, byte encoding yields exactly the values of its UTF-8 bytes in order, and decoding the ids or the pieces returns the identical string, control characters and newlines included. '
 'Decoding never fails: in any sequence of ids the sentence markers decode to their names, each maximal run of bytes between them decodes as UTF-8, and malformed bytes turn into replacement characters.',
 ['inputs'], 'all Unicode strings; all id sequences over bytes and markers',
 'Three printable sentences are tested; bytes below 0x10 (tab, newline) never occur in them.',
 ['nlcodec/codec.py'],
 [('hex piece names', 'nlcodec/codec.py ByteScheme.code_to_str, compose_str'), ('buffering between markers', 'nlcodec/codec.py ByteScheme.decode_str')],
 [], ['encode', 'decode', 'encode_str', 'decode_str'])
prop('C06', 'Vocabulary selection is exact',
 'For every corpus, a learned word or character vocabulary is the reserved types at their fixed ids followed by distinct types with their true corpus frequency in non-increasing order, namely exactly those left after applying, in this order, the coverage cut (shortest most-frequent prefix reaching the coverage), the minimum frequency, and the size limit. '
 'The unknown type carries the total frequency of everything left out (plus its own literal occurrences), the sentence markers the number of lines, and no occurrence is lost; a class vocabulary contains every distinct label with its count, in alphabetical order.',
 ['inputs', 'configurations'], 'all corpora and all combinations of coverage, minimum frequency and vocabulary size',
 'Only test_class_scheme trains anything but BPE/bytes, and it checks just the number of labels.',
 ['nlcodec/codec.py', 'nlcodec/utils.py'],
 [('trimming order and unknown mass', 'nlcodec/codec.py get_init_vocab'), ('coverage prefix', 'nlcodec/utils.py filter_types_coverage')],
 [], ['learn_vocab result'])
prop('C07', 'A saved model reloads as the same codec',
 'For every codec kind and every learned table, the model file written by saving or by training reloads - from a path, a string path or an open file - as the same kind of codec with the same types: index, text, level, frequency and composition, comparing equal to the originals. '
 'The reloaded codec encodes and decodes every line exactly as the original one does, and saving it again reproduces the same table, also in a process whose locale is not UTF-8.',
 ['inputs', 'configurations'], 'all tables of all five codec kinds, any Unicode type text (class labels included) without tab or line break; all lines',
 'The tests compare formatted tables of one corpus for three of the five kinds, never the composition objects, the codec kind, or behaviour.',
 ['nlcodec/codec.py'],
 [('tab separated format and parse', 'nlcodec/codec.py Type.format, Type.parse'), ('scheme name in header', 'nlcodec/codec.py save, load_scheme')],
 [], ['load_scheme', 'Type.read_vocab', 'model file'])
prop('C08', 'Shrinking keeps exactly what is needed',
 'For every vocabulary, set of non-empty text files and threshold, the shrunk model consists of the reserved types, the types whose encoded frequency in those files reaches the threshold, and every type these are composed of, in the original order with consecutive new ids and remapped composition; the returned list maps new ids to old ids. '
 'The model saved reloads as the same kind of codec, and with threshold one it encodes those files into the same pieces as before.',
 ['inputs', 'configurations'], 'all vocabularies of all kinds, all texts, all thresholds',
 'test_shrink shrinks one BPE model with one file and threshold and only compares lengths.',
 ['nlcodec/codec.py'],
 [('removal flags, closure over parts, remapping', 'nlcodec/codec.py shrink_vocab')], [('removals', 'types to drop', 'nlcodec/codec.py shrink_vocab')],
 ['returned mapping', 'saved model file', 'encode with reloaded model'])
prop('C09', 'Stochastic splits are exactly the valid ones',
 'For every BPE type and every sequence of random outcomes, a stochastic split returns pieces (or ids) whose texts concatenate to the text of the type; the splits reachable over all outcomes are exactly the listed permutations of the type, each listed once. '
 'Ratio 0 never splits, ratio 1 always splits down to types without parts, and encoding a line with any split ratio decodes to the same text as encoding it without.',
 ['schedules', 'inputs'], 'all random outcomes at every split decision; all types of all trained vocabularies; all lines',
 'No test calls the split or permutation functions; the outcomes are random.',
 ['nlcodec/codec.py'],
 [('recursive split on a random draw', 'nlcodec/codec.py Type.get_stochastic_split, get_permutations, BPEScheme.stochastic_split')], [], ['returned pieces and ids'])
prop('C10', 'Parallel encoding equals sequential encoding',
 'For every codec, every stream of lines, every number of worker processes, every chunk size and every order in which the workers finish, parallel encoding yields exactly the sequences sequential encoding gives, one per line, in input order. '
 'An error in a worker or in the input stream surfaces to the caller instead of shortening the result.',
 ['schedules', 'inputs', 'configurations'], 'all completion orders of chunks, all stream lengths relative to chunk size; vocabularies with pieces of up to several hundred characters',
 'No test calls parallel encoding; completion order is chosen by the operating system.',
 ['nlcodec/codec.py'],
 [('ordered lazy map over a process pool', 'nlcodec/codec.py parallel_map, encode_parallel')], [], ['yielded sequences'])
prop('C11', 'Map-reduce equals a sequential fold',
 'For every non-empty input, mapper, associative reducer and identity default, map-reduce returns the left-to-right fold of the mapped items - also for non-commutative reducers, odd lengths at any level, and any scheduling of the map and reduce pools - and the word counter returns the exact word counts. '
 'An empty input or a failing mapper, reducer or input stream raises an error and never yields a partial result.',
 ['schedules', 'inputs', 'fault_sequences'], 'all input lengths, all completion orders in both pools, a fault at every item',
 'The tests add up integers for three lengths that are multiples of 10,000 with a commutative reducer.',
 ['nlcodec/para/mapred.py'],
 [('pairing with default for the odd item, lazily chained levels', 'nlcodec/para/mapred.py pair_subsequent, IterativeReducer'), ('in-place dictionary merge', 'nlcodec/para/mapred.py merge_freqs')],
 [], ['return value', 'exceptions'])
prop('C12', 'Frequency files stand in for raw text',
 'Term frequencies written to a file and read back, with or without a header line, are the same terms with the same counts, and the recorded line count is recovered. '
 'Learning a word vocabulary from such a file gives the same types and frequencies as learning from the text it was counted from, and BPE training from it obeys the same merge rules on the same word counts.',
 ['inputs', 'configurations'], 'all corpora and terms (including terms starting with #), all learning settings',
 'Learning from term frequencies is not tested.',
 ['nlcodec/codec.py', 'nlcodec/term_freq.py'],
 [('header detection and parsing', 'nlcodec/codec.py read_term_freqs'), ('writing', 'nlcodec/term_freq.py write_stats')], [], ['learn_vocab(term_freqs=True)', 'frequency file'])
prop('C13', 'Command-line encode/decode is line-faithful',
 'For every model and input file, the nlcodec command writes exactly one output line per input line in the same order: encode writes the pieces (or ids) the codec gives for that line joined by single spaces, decode writes the text the codec gives for that line. '
 'Feeding the encoded output back to decode reproduces every known line up to whitespace normalisation (bytes: exactly), in both string and index mode (lines end at line feeds), and learn writes the model the library call with the same settings gives.',
 ['inputs', 'configurations'], 'all input files (empty lines, missing final newline included), all codec kinds (class labels of one word), both modes',
 'The command line has no test.',
 ['nlcodec/__main__.py', 'nlcodec/codec.py'],
 [('task dispatch and joining', 'nlcodec/__main__.py main, write_lines'), ('line-wise encode/decode', 'nlcodec/codec.py encode, decode')], [], ['output files'])
prop('C14', 'Spark term counting is exact and reusable',
 'For every set of text files and every partitioning, counting on Spark returns the exact frequency of every whitespace-separated word, of every character over all those words, and the number of lines; with deduplication each distinct line counts once. A session given by the caller keeps running. '
 'The nlcodec-learn command writes the model that learning from those counts gives, and running it again on the saved frequency files gives the same model.',
 ['inputs', 'schedules', 'histories'], 'all text files, file sets and partition counts; first run and rerun',
 'No test counts terms on Spark or runs nlcodec-learn, let alone twice.',
 ['nlcodec/term_freq.py', 'nlcodec/learn.py', 'nlcodec/spark.py'],
 [('flatMap/reduceByKey with a line tag', 'nlcodec/term_freq.py word_counts'), ('reuse of frequency files', 'nlcodec/learn.py main')], [], ['returned counts', 'model file'])
prop('C15', 'An interrupted run never leaves a model that loads wrongly',
 'If writing a model file given by its path - saving, training, shrinking, or the nlcodec and nlcodec-learn commands, over nothing or over an older model - is interrupted at any point, by the death of the process between or inside file operations or by a failing file operation, then loading that path afterwards either fails or gives exactly the complete old or the complete new model. '
 'Running again without interruption gives the model an undisturbed run gives; in particular nlcodec-learn never takes frequency files of an interrupted run for complete ones, at any level.',
 ['fault_sequences', 'histories'], 'all kinds of models, all file operations of the run and all bytes of a write as points of interruption, pairs of interruptions',
 'No test kills or fails a run; a partial model loads without complaint as a smaller one.',
 ['nlcodec/codec.py', 'nlcodec/learn.py', 'nlcodec/utils.py'],
 [('written aside, moved into place', 'nlcodec/codec.py Type.write_out'), ('reuse of frequency files', 'nlcodec/learn.py main')], [], ['load_scheme on the path', 'next run of nlcodec-learn'])
prop('C16', 'A codec may be shared by threads and outlives interrupted calls',
 'For every codec and every set of calls made on it at the same time by several threads - encoding, decoding, splitting, saving, shrinking, with trainings and loads of others going on in the same process - each call gives exactly what it gives alone, whatever the schedule. '
 'When models are saved to one path at the same time and loaded from it meanwhile, the path holds one of them complete afterwards, and every load over an older model gives one complete model. A call that fails, or is interrupted at any point (such as by Ctrl-C), leaves the codec and the process such that every later call gives what it gives in a fresh process.',
 ['schedules', 'histories', 'inputs'], 'all schedules of the calls of two or three threads, all points of interruption, all kinds of codecs',
 'The tests call one codec from one thread and never interrupt a call.',
 ['nlcodec/codec.py', 'nlcodec/bpe.py', 'nlcodec/dstruct.py'],
 [('no state kept between calls', 'nlcodec/codec.py encode, decode, stochastic_split, shrink_vocab')], [], ['returned sequences, saved files'])
prop('D01', 'Stored sequences come back unchanged',
 'For every non-empty list of records - any ids, any number of fields, sequences of any length including empty, any integers that fit one signed or unsigned 64-bit type per field, given as lists or arrays - every field of every record read from a database is the same sequence of integers that was stored, whether read by id, by iteration or as the values or pairs of a field, before or after saving and reloading. '
 'The database has exactly the stored ids and lengths, and fields holding integers that no 64-bit type holds, records with the wrong number of fields, and repeated ids are rejected with an error rather than altered.',
 ['inputs', 'schedules'], 'all record lists and value ranges, all points at which the write buffer may be flushed',
 'test_db stores random sequences below 32,000 once; no test reaches a buffer flush, an empty sequence, negative or large values, or reloads a single-file database by content.',
 ['nlcodec/db/core.py'],
 [('offset table into one flat array', 'nlcodec/db/core.py SeqField'), ('buffer flush and concatenation', 'nlcodec/db/core.py SeqField.Builder.shrink, build')],
 [('refs', 'start and length of each sequence', 'nlcodec/db/core.py'), ('frozen, buffer', 'flushed and pending values', 'nlcodec/db/core.py')],
 ['Db[id]', 'iteration', 'saved file'])
prop('D02', 'Integer storage uses the smallest safe type',
 'For every range of integers the chosen storage type contains the whole range, and no integer type of fewer bytes would; a range no 64-bit type can hold is rejected. '
 'The values a database field holds are stored in such a smallest type for the range of the whole field, however the values were buffered, and never as floating point.',
 ['inputs', 'schedules'], 'all ranges (all boundary neighbourhoods of the 8, 16, 32 and 64-bit types), all flush points',
 'test_best_type samples 19 ranges and never looks at the type a database actually uses.',
 ['nlcodec/db/core.py'], [('width selection', 'nlcodec/db/core.py best_dtype'), ('concatenation of buffers', 'nlcodec/db/core.py SeqField.Builder.shrink')], [], ['best_dtype', 'field data dtype'])
prop('D03', 'A multi-part database holds every record once',
 'For every record stream, part size and loading mode (parts kept in memory or not, shuffled or not), the multi-part database reports the number of stored records, and each pass over it returns every record exactly once, with its id and unchanged fields, in all random orders; when shuffling is asked for, the order of the parts and of the records inside every part is not always the same, in memory or not. '
 'Every part holds at most the requested number of records, streams given with or without ids are handled alike, and existing data is replaced only when overwriting was asked for.',
 ['inputs', 'configurations', 'schedules'], 'all stream lengths relative to part sizes, all loading modes, all shuffle outcomes',
 'One size with one part size is tested, without shuffling, memory mode or repeated passes.',
 ['nlcodec/db/core.py'], [('lazy slicing of the stream', 'nlcodec/db/core.py MultipartDb.slices, create'), ('part loading', 'nlcodec/db/core.py MultipartDb.__iter__, load')], [], ['len', 'iteration', 'part files'])
prop('D04', 'A crash never leaves a database that loads wrongly',
 'If writing or overwriting a database (single-file or multi-part) is interrupted at any point - process killed between or inside file operations, or an operation failing with an I/O error - then loading the path afterwards either fails or gives exactly the complete old or the complete new data. '
 'Creating the database again with overwriting then succeeds and is complete, and creation without overwriting never mixes old and new parts.',
 ['crash_points', 'fault_sequences', 'histories'], 'every file operation of every create/overwrite history, every torn length of every write considered, every injected error',
 'No test interrupts a write; the success marker is never absent, stale or torn in a test.',
 ['nlcodec/db/core.py'], [('success marker written last and required on load', 'nlcodec/db/core.py MultipartDb.Writer.close, load'), ('removal of old data', 'nlcodec/db/core.py MultipartDb.Writer.__init__')], [('_SUCCESS', 'marker with the list of parts', 'nlcodec/db/core.py')], ['directory contents', 'load'])
prop('D05', 'Batches cover the data once within limits',
 'For every dataset (single or multi-part, any ids), limits and random outcome, one pass over the batches yields each record whose two sides are non-empty exactly once and no other record; in every batch the number of records times the longest stored sequence is within the token limit, and the number of records within the sentence limit. '
 'A record too long for the token limit raises an error instead of being dropped, and in equal-length mode the length ranges of the batches of one part overlap at most at their ends. The number of items reported is the number of records. The path may be a string, and the orders called random are not always the same.',
 ['inputs', 'schedules', 'configurations'], 'all multisets of record lengths, all token and sentence limits, all shuffle outcomes, both orders',
 'The tests only check a token count on random data; no test checks that no record is lost or repeated, or the sentence limit.',
 ['nlcodec/db/core.py', 'nlcodec/db/batch.py'], [('greedy packing after length sort', 'nlcodec/db/core.py _make_eq_len_batch_ids'), ('greedy packing in stored order', 'nlcodec/db/batch.py read_all')], [], ['BatchIterable iteration'])
prop('D06', 'Batch contents are faithful',
 'Each row of a batch is the stored sequence of one record, with the begin or end marker added when it is required and missing and not otherwise, followed by padding up to the longest row; source and target rows with the same position belong to the same record, lengths and token totals match the rows, descending order and transposition included. '
 'A marker present where none may be is rejected, and building batches never alters the stored data, so another pass presents the same rows.',
 ['inputs', 'configurations', 'histories'], 'all record contents (token ids below 2^31) over a small alphabet including marker and padding values, all option combinations, repeated passes',
 'The tests only look at one token total, with data that already contains all markers.',
 ['nlcodec/db/batch.py'], [('marker insertion', 'nlcodec/db/batch.py Batch.val_exists, bos_eos_check'), ('padded matrix', 'nlcodec/db/batch.py Batch.__init__')], [], ['Batch fields'])
prop('D07', 'Parts may be written in any order, repeatedly',
 'When the parts of a multi-part database are written by independent writers - in any order, interleaved, with copies of the writer that travelled to other processes, or with a part attempted again after an earlier attempt finished or died midway, the last attempt of every part being a complete one - the finished database contains exactly the records of the last complete attempt of every part. '
 'Parts without records are harmless, and when the writing session ends with an error the path does not load as a database.',
 ['schedules', 'histories', 'fault_sequences'], 'all interleavings of part attempts by two writers, all retry histories, a failure at every record',
 'test_spark_write lets Spark write once and checks only the total length.',
 ['nlcodec/db/core.py', 'nlcodec/spark.py'], [('one file and one metadata file per part, collected at close', 'nlcodec/db/core.py MultipartDb.Writer'), ('success marker only after a clean session', 'nlcodec/db/core.py MultipartDb.Writer.__exit__')], [], ['load', 'iteration'])
prop('D08', 'Bitext records stay aligned',
 'For every pair of parallel text files, encoders and length limits, the database built from them holds for each kept line one record whose id is the line number and whose source and target, in the fields of the requested names, are the encodings of exactly that line on both sides, cut to the length limits when truncating. '
 'Kept are exactly the lines with a non-empty raw line and at least one token on both sides and, when not truncating, with neither side longer than its limit; files with different numbers of lines are rejected; the number of partitions makes no difference.',
 ['inputs', 'configurations', 'schedules'], 'all combinations of empty, short, exact-length and long lines at every position; all partition counts',
 'Reading bitext has no test at all.',
 ['nlcodec/spark.py', 'nlcodec/bitextdb.py'], [('join on line index', 'nlcodec/spark.py read_raw_bitext'), ('filtering and truncation', 'nlcodec/spark.py read_raw_bitext_tok'), ('writing', 'nlcodec/spark.py rdd_as_db')], [], ['database contents'])
prop('D09', 'Masks hide the padding and the future',
 'For every matrix of padded token rows, of a batch or not, whatever its integer type and the padding id, the autoregressive mask has one square matrix per row that is open at (i, j) exactly when j is not after i and the token at j is not padding; the subsequent mask of any size is the lower triangle with its diagonal. '
 'Making masks does not alter the tokens, and changing a mask does not change the next one.',
 ['inputs', 'histories'], 'all matrices, padding ids, sizes; repeated calls',
 'The tests never make a mask; on the pinned commit every mask failed.',
 ['nlcodec/db/batch.py'], [('lower triangle combined with the padding mask', 'nlcodec/db/batch.py make_autogres_mask_, subsequent_mask')], [], ['returned arrays'])
prop('D10', 'A database may be read by several threads and passes at a time',
 'For every opened database (single file, parts, kept in memory or not, records or batches in any order) passes, lookups, fields, lengths and batches that go on at the same time, in several threads or in step in one thread, each give what they give alone, whatever the schedule. '
 'A read that is given up or interrupted at any point leaves the opened database and its files such that every later read gives what it gives alone; writers of different databases, or of different parts of one, do not disturb each other in one process.',
 ['schedules', 'histories', 'inputs'], 'all schedules of two readers or writers, all interleavings of two passes, all points of interruption',
 'The tests make one pass at a time in one thread.',
 ['nlcodec/db/core.py', 'nlcodec/db/batch.py'],
 [('passes open parts of their own', 'nlcodec/db/core.py MultipartDb.__iter__, Db.__iter__'), ('batches of a pass', 'nlcodec/db/batch.py BatchIterable')], [], ['records and batches read'])
prop('E01', 'Corpus n-gram statistics are exact',
 'For every corpus, n-gram counting counts every window of n consecutive items once; for every pair of candidate and reference corpora, the recall (precision) of an n-gram is the mean over the lines whose reference (candidate) contains it of its clipped match ratio, the reported frequencies are its total counts, and F1 is their harmonic mean within [0,1]. '
 'The command-line reports are computed for the requested n, and the in-vocabulary and out-of-vocabulary counts always add up to the totals.',
 ['inputs', 'configurations'], 'all small corpora over a small alphabet, all n',
 'The evaluation tools have no test.',
 ['nlcodec/utils.py', 'nlcodec/eval/pr_measure.py', 'nlcodec/eval/termfreq.py', 'nlcodec/eval/oov_count.py'], [('n-gram extraction', 'nlcodec/utils.py make_n_grams'), ('clipped counts', 'nlcodec/eval/pr_measure.py count_gram_recall')], [], ['returned dictionaries', 'report files'])
prop('E02', 'Codec quality estimates are exact',
 'For every codec and every non-empty corpus, the quality estimate reports the vocabulary size, the exact number of encoded tokens, the mean encoded length per line, the exact number of unknown tokens (none for byte and class codecs with known labels), and the imbalance, half the absolute deviation of the token distribution from uniform. '
 'Divergence measures are zero exactly for equal distributions, never negative, bounded (Jensen-Shannon by ln 2 and symmetric); the earth mover distance and the Jensen-Shannon divergence reject arrays that are not distributions of one length.',
 ['inputs', 'configurations'], 'all small corpora for all codec kinds; all pairs of distributions with small denominators',
 'Quality estimation has no test; half of it does not run on current numpy.',
 ['nlcodec/qestim.py'], [('token statistics', 'nlcodec/qestim.py QualityEstimator._estimate'), ('divergences', 'nlcodec/qestim.py js_div, kl_div, EMD_simple')], [], ['CodecQuality fields'])
prop('E03', 'BPE merge tracking equals recounting',
 'For every BPE model with merges and every corpus, after each replayed merge the tracked token counts, mean sequence length and imbalance equal those obtained by applying the merges so far to the text from scratch, left to right, and counting. '
 'One result is reported for the starting vocabulary and one after every merge of the model. After each merge the tracked codec encodes and decodes as a codec of the vocabulary up to that merge.',
 ['inputs', 'histories'], 'all corpora (runs of repeated symbols included) and every prefix of the merge history',
 'The tracker has no test.',
 ['nlcodec/eval/bpe_len.py'], [('incremental counts', 'nlcodec/eval/bpe_len.py BpeTracker.track_merges')], [('uni, bi_ixs, seq_lens', 'token counts, pair occurrences, lengths', 'nlcodec/eval/bpe_len.py')], ['track_merges result'])
prop('U01', 'Files read back as written, compressed or not',
 'For every text or byte content, writing it with the file helper and reading it back returns the identical content, whether or not the name selects gzip compression, in text and binary mode; appending adds to the end and writing replaces. '
 'A compressed and an uncompressed copy of the same content always yield the same lines, split only at line feeds, several files stream as the concatenation of their lines, text is UTF-8 whatever the locale, and files are closed when the block ends, also after an error.',
 ['inputs', 'histories', 'fault_sequences'], 'all contents over an alphabet with every line-break-like character; all sequences of write/append/read up to a depth',
 'The helper is only used by tests to read two plain files.',
 ['nlcodec/utils.py'], [('opener', 'nlcodec/utils.py IO')], [], ['file contents', 'lines read'])
prop('U02', 'Heap, trie and linked list behave as specified',
 'Over every sequence of operations, the max-heap pops an item of highest priority among those held, returns every pushed item exactly once and reports its size; the trie returns for each path the node that was stored there, counts nodes and data nodes exactly, and lookups without creation never add nodes. '
 'A linked list built from a sequence keeps, after any deletions, exactly the remaining items linked in both directions in order, with their frequencies and data.',
 ['histories'], 'all operation sequences up to a depth',
 'These structures are only exercised indirectly by training one corpus.',
 ['nlcodec/dstruct.py'], [('MaxHeap, TrNode, LnNode', 'nlcodec/dstruct.py')], [], ['public methods'])

prop('X01', 'The script expanders are invertible',
 'For every text in which each vowel sign and virama directly follows a consonant, the Abugida converter in experimental/ writes consonants without their implied vowel: viramas disappear, signs become their vowels, a consonant with neither is followed by the implicit vowel, a full vowel that does not begin a whitespace-separated word is followed by a mark, and every other character stays in place. '
 'Decoding restores the text exactly; so does the expander that only puts a mark between adjacent consonants, for every text without that mark. Streams and the command lines convert line by line.',
 ['inputs'], 'all Unicode lines that satisfy the precondition; all streams of lines',
 'There are no tests of these tools; the defects need a rare syllable (a virama before punctuation).',
 ['experimental/unicode_fix.py', 'experimental/uxdx.py'],
 [('look-ahead conversion', 'experimental/unicode_fix.py AbugidaLang.encode, decode'), ('marks between consonants', 'experimental/uxdx.py Devanagari')],
 [], ['encode', 'decode', 'output files'])

root = pathlib.Path(__file__).resolve().parent.parent
with open(root / 'properties.jsonl', 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P), 'properties')

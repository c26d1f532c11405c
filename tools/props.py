NOT_APPLICABLE = {}

PROPS = []


def P(id, title, statement, over, quant, why, files, mech, observe):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over.split(), quant=quant, why=why,
                      files=files.split(), mech=mech, observe=observe.split(', ')))


LEV = 'cfog/metrics/levenshtein.pyx'

P('C01', 'levenshtein_distance is the Levenshtein distance',
  'For any two strings, levenshtein_distance returns exactly the minimum number of single-character insertions, '
  'deletions and substitutions turning one into the other, where a character is a Unicode code point. '
  'Hence it is zero only for equal strings and it does not depend on the order of its arguments.',
  'inputs', 'all pairs of Unicode strings, of any length and character width',
  'The tests compare a few dozen hand-picked word pairs; affix trimming, length shortcuts and the rolling row fail '
  'only on particular overlaps of prefix, suffix and remaining length, or particular code points.',
  LEV, [('affix trimming, single row dynamic programme', LEV + ':levenshtein_distance')],
  'cfog.metrics.levenshtein_distance')

P('C02', 'limited_levenshtein_distance agrees with the distance up to its bound',
  'For any bound k >= 0 and any two strings, limited_levenshtein_distance(k, a, b) returns the exact Levenshtein '
  'distance whenever that distance is at most k, and k + 1 otherwise. It does not depend on the order of the '
  'two strings.',
  'inputs configurations', 'all bounds k >= 0 and all pairs of Unicode strings',
  'The tests try a few pairs under three bounds; the band of the banded programme and its early exits are wrong '
  'only for particular combinations of bound, length difference and position of the edits.',
  LEV, [('band of the matrix, early exit', LEV + ':limited_levenshtein_distance')],
  'cfog.metrics.limited_levenshtein_distance')

P('C03', 'Distance-at-most-one predicates decide exactly one edit',
  'levenshtein_distance_lte1(a, b) is true if and only if a and b are equal or one insertion, deletion or '
  'substitution apart. damerau_levenshtein_distance_lte1(a, b) is true if and only if that holds or b is a with one '
  'pair of adjacent characters swapped.',
  'inputs', 'all pairs of Unicode strings',
  'The tests try a few pairs; the cursors go wrong only at the ends of the strings, on repeated letters, or on an '
  'edit followed by something that looks like a swap.',
  LEV, [('two cursor scan', LEV + ':levenshtein_distance_lte1'),
        ('two cursor scan with swaps', LEV + ':damerau_levenshtein_distance_lte1')],
  'cfog.metrics.levenshtein_distance_lte1, cfog.metrics.damerau_levenshtein_distance_lte1')

P('C04', 'The compiled distances are memory safe and never leak',
  'No call of the compiled string distances, whatever the strings and the bound, reads or writes outside memory it '
  'owns, nor lets its result depend on uninitialised memory. Every block of memory it requests is released when the '
  'call ends, on every return path. If memory is refused, the call raises MemoryError.',
  'inputs fault_sequences', 'all pairs of Unicode strings and bounds, and every heap request that may be refused',
  'Tests look at return values, which a read past the end, a leak on an early return or an unchecked allocation do '
  'not change on the inputs and on the machine they run on.',
  LEV, [('malloc/free of the row and character buffers', LEV)],
  'cfog.metrics.levenshtein_distance, cfog.metrics.limited_levenshtein_distance, '
  'cfog.metrics.levenshtein_distance_lte1, cfog.metrics.damerau_levenshtein_distance_lte1')

P('C05', 'Set similarity measures equal their set-theoretic definitions',
  'For two collections of hashable elements, not both empty, Jaccard similarity is |A & B| / |A | B|, Dice is '
  '2|A & B| / (|A| + |B|), overlap coefficient is |A & B| / min(|A|, |B|) and binary cosine |A & B| / sqrt(|A| |B|) (zero '
  'if one is empty), where A and B are the sets of their elements. '
  'This holds whatever the types of the two collections, the repetitions and the order, so they are symmetric, in [0, 1], and '
  '1 on a non-empty collection compared with itself. Of two distinct empty collections Dice is 1 and the others 0.',
  'inputs configurations', 'all pairs of collections in every container type',
  'The tests compare a handful of strings; shortcuts on sizes, identity or types fail on particular mixtures of '
  'containers, repeats and sizes.',
  'fog/metrics/jaccard.py fog/metrics/dice.py fog/metrics/overlap.py fog/metrics/cosine.py fog/metrics/utils.py',
  [('coercion to sets, counting from the smaller side', 'fog/metrics/*.py')],
  'fog.metrics.jaccard_similarity, fog.metrics.dice_coefficient, fog.metrics.overlap_coefficient, '
  'fog.metrics.binary_cosine_similarity')

P('C06', 'Weighted Jaccard and cosine equal their algebraic definitions',
  'On mappings from keys to weights, a missing key counting as zero, weighted Jaccard is the sum of minima over the '
  'sum of maxima (non-negative weights, positive total) and cosine similarity is the dot product over the product of '
  'the norms (non-zero norms; zero if a side has no entry). Cosine of two sequences is that of their frequencies. '
  'Results are symmetric, whichever side is larger, and normalising a vector divides its weights by its norm.',
  'inputs configurations', 'all pairs of weighted sets and of sequences, up to floating point rounding',
  'The tests check a few vectors; which side is iterated, missing keys and weight kinds matter only for particular '
  'pairs.',
  'fog/metrics/jaccard.py fog/metrics/cosine.py fog/metrics/utils.py',
  [('iteration over the smaller side', 'fog/metrics/cosine.py'), ('union of the keys', 'fog/metrics/jaccard.py')],
  'fog.metrics.weighted_jaccard_similarity, fog.metrics.cosine_similarity, fog.metrics.sparse_cosine_similarity, '
  'fog.metrics.sparse_dot_product, fog.metrics.sparse_norm, fog.metrics.sparse_normalize')

P('C07', 'Pairwise connected components are the components of the similarity graph',
  'For any symmetric similarity relation, however stated (boolean similarity, similarity or distance with a radius), '
  'pairwise clustering in connected components mode yields exactly the connected components of the graph of similar '
  'items whose size lies within min_size and max_size. Every item appears in at most one cluster, and items are '
  'returned as given.',
  'inputs configurations', 'all similarity relations over all lists of items, all size bounds, all ways of stating it',
  'The tests run one list of names; skipping or merging errors need particular graph shapes and orders.',
  'fog/clustering/pairwise.py fog/clustering/utils.py',
  [('graph of matches and its traversal', 'fog/clustering/pairwise.py'),
   ('clusters_from_pairs', 'fog/clustering/utils.py')],
  'fog.clustering.pairwise_connected_components, fog.clustering.pairwise')

P('C08', 'Leader and fuzzy pairwise clusters keep their defining conditions',
  'Pairwise leader clustering assigns items in order: each not yet taken item leads a cluster made of itself and the '
  'later free items similar to it, and clusters outside min_size and max_size are dropped, leaving their members '
  'free. Fuzzy clustering yields clusters made of a leader and all items similar to it, leaders are pairwise not '
  'similar, every viable item is covered, and sizes lie within the bounds.',
  'inputs configurations', 'all similarity relations over all lists of items, all size bounds',
  'The tests run one list of names; overlapping clusters and size limits interact only on particular graphs.',
  'fog/clustering/pairwise.py fog/clustering/utils.py',
  [('pairwise_leader', 'fog/clustering/pairwise.py'), ('pairwise_fuzzy_clusters', 'fog/clustering/pairwise.py')],
  'fog.clustering.pairwise_leader, fog.clustering.pairwise_fuzzy_clusters, fog.clustering.pairwise')

P('C09', 'Parallel clustering yields the sequential clusters under every schedule',
  'Whatever the number of processes, the chunk size and the order in which workers finish, pairwise connected '
  'components, blocking and quickjoin yield the same clusters with several processes as with one. In fuzzy '
  'mode parallel clusters satisfy the same conditions as sequential ones, and pairwise ones do not depend on that order. Nothing is lost, repeated or deadlocked.',
  'schedules inputs configurations',
  'all worker completion orders, chunk sizes, process counts and similarity relations',
  'The tests run one chunk size on one list and see one schedule of the pool per run.',
  'fog/clustering/pairwise.py fog/clustering/blocking.py fog/clustering/quickjoin.py fog/clustering/utils.py',
  [('imap_unordered over chunks, offsets shipped with the payload', 'fog/clustering/pairwise.py'),
   ('task iterator over blocks', 'fog/clustering/blocking.py'),
   ('one task per block', 'fog/clustering/quickjoin.py')],
  'fog.clustering.pairwise, fog.clustering.blocking, fog.clustering.quickjoin')

P('C10', 'passjoin misses no pair of strings within the Levenshtein radius',
  'For distinct strings and an integer radius k, passjoin yields exactly the clusters obtained by comparing every '
  'pair of strings with the Levenshtein distance: two strings at distance at most k always end up linked, and no '
  'other strings do. This holds in every input order, for sorted input declared as such, in both modes, whatever '
  'min_size and max_size.',
  'inputs configurations', 'all sets of distinct strings, all radii and orders',
  'The tests use a few fixed sets; segment positions and multi-match windows miss pairs only for particular lengths '
  'and edit positions.',
  'fog/clustering/passjoin.py fog/clustering/utils.py',
  [('partition into k+1 segments, window of substring positions', 'fog/clustering/passjoin.py')],
  'fog.clustering.passjoin')

P('C11', 'ppjoin and all-pairs report exactly the pairs reaching the threshold',
  'For every supported metric, threshold in (0, 1] and token ordering, the similarity joins report each unordered '
  'pair of records whose token sets reach the threshold exactly once, and no other pair (two empty records aside). '
  'Records may be given with or without a tokenizer, in any order, with repeated tokens.',
  'inputs configurations', 'all collections of token sets, metrics, thresholds, algorithms and orderings',
  'The tests join one dataset; prefix, positional and suffix filters are unsound only for particular sizes, overlaps '
  'and positions of the common tokens.',
  'fog/clustering/ppjoin.py',
  [('prefix, positional and suffix filters, inverted index', 'fog/clustering/ppjoin.py')],
  'fog.clustering.all_pairs, fog.clustering.ppjoin, fog.clustering.ppjoin_plus')

P('C12', 'quickjoin finds every pair within the radius, whatever the random pivots',
  'For a true metric, quickjoin always terminates and yields exactly the clusters obtained by comparing every pair of '
  'items, in both modes, whatever random pivots are drawn, whatever the block size (at least 2) and beta in (0, 1], '
  'whether a distance or a similarity in [0, 1] is given, and within the size bounds. Items may coincide; in connected components, repeated ones count as one.',
  'inputs schedules configurations', 'all finite metric spaces, radii, block sizes, and all random pivot draws',
  'The tests run one seed on one list; a pair straddling a partition border is lost only for particular pivots and '
  'distances.',
  'fog/clustering/quickjoin.py fog/clustering/utils.py',
  [('ball partition and window partitions', 'fog/clustering/quickjoin.py')],
  'fog.clustering.quickjoin')

P('C13', 'VP-tree clustering answers range queries exactly',
  'For a true metric, vp_tree goes through the items in order and yields, for each one not yet in a yielded cluster, exactly the items '
  'within the radius of it, if their number lies within min_size and max_size. This holds for any radius, any order of the items and any random '
  'vantage points, and for any number of items, none and one included.',
  'inputs schedules configurations', 'all finite metric spaces, orders, radii and all random vantage point draws',
  'The tests run one list and one radius; pruning errors need points at particular distances of a vantage point.',
  'fog/clustering/vp_tree.py',
  [('median split and pruning by the triangle inequality', 'fog/clustering/vp_tree.py')],
  'fog.clustering.vp_tree')

P('C14', 'The intersection index clusters exactly by token similarity',
  'intersection_index yields exactly the clusters obtained by comparing every pair of items on the chosen measure '
  '(overlap coefficient or Jaccard) of their token sets against the positive radius, in both modes, '
  'with or without a key function giving the tokens, whatever repeated tokens, orders and size bounds.',
  'inputs configurations', 'all collections of token sets, radii, measures, modes and size bounds',
  'The tests run one list; counting of shared tokens goes wrong only on repeated tokens, ties and empty records.',
  'fog/clustering/intersection_index.py fog/clustering/utils.py',
  [('inverted index with intersection counters', 'fog/clustering/intersection_index.py')],
  'fog.clustering.intersection_index')

P('C15', 'Blocking compares exactly the pairs sharing a block',
  'Blocking yields exactly the clusters obtained by comparing every pair of distinct items sharing at least one '
  'block, whether blocks come one per item or several, in both modes and within the size bounds. Items without a block '
  'are in no cluster, and pairs sharing several blocks count once.',
  'inputs configurations', 'all assignments of blocks to items, all similarity relations, modes and size bounds',
  'The tests run one list with one kind of block; interactions of several blocks per item need particular shapes.',
  'fog/clustering/blocking.py fog/clustering/utils.py',
  [('blocks index, pairs already seen', 'fog/clustering/blocking.py')],
  'fog.clustering.blocking')

P('C16', 'key_collision groups items by key exactly',
  'key_collision yields exactly the groups of items sharing a key, whose size lies within min_size and max_size; items '
  'whose key is None or empty are left out. With several keys per item, groups are per key, or, when '
  'merging, the connected components of the relation "share a key". An item never collides with itself.',
  'inputs configurations', 'all assignments of keys to items, merged and not, all size bounds',
  'The tests run one list; falsy keys, repeated keys and merge chains are not in it.',
  'fog/clustering/key_collision.py fog/clustering/utils.py',
  [('buckets', 'fog/clustering/key_collision.py')],
  'fog.clustering.key_collision')

P('C17', 'Sorted neighborhood compares exactly the items within its window',
  'sorted_neighborhood yields exactly the clusters obtained by comparing, on each pass, every two items less than the window '
  'apart in the order of the sort key. The adaptive variant starts from windows of the given size, enlarges a window while its borders are '
  'similar, and never shrinks it under the given size. Several keys make as many passes and their pairs add up, '
  'also when the items come from an iterator.',
  'inputs configurations', 'all similarity relations, sort orders, windows, passes, modes',
  'The tests run one list; off-by-one windows and ends of the list show only for particular positions.',
  'fog/clustering/sorted_neighborhood.py fog/clustering/utils.py',
  [('sliding window', 'fog/clustering/sorted_neighborhood.py'),
   ('enlargement and retrenchment', 'fog/clustering/sorted_neighborhood.py')],
  'fog.clustering.sorted_neighborhood, fog.clustering.adaptive_sorted_neighborhood')

P('C18', 'Approximate clusterers are sound, seeded and exact in their exact regime',
  'nn_descent terminates and only clusters items linked by truly similar pairs, gives the same clusters for the same '
  'seed, and is exact when k covers all other items. minhash clusters exactly through the pairs whose signatures '
  'share a whole band and whose Jaccard similarity reaches the radius. nn_descent respects min_size and max_size, and '
  'both handle empty and tiny inputs. To nn_descent, equal items are items of their own.',
  'inputs schedules configurations', 'all weighted similarity graphs, all random draws, k, seeds, bands and radii',
  'The tests accept one outcome for one seed; wrong links or endless descents need particular draws and ties.',
  'fog/clustering/nn_descent.py fog/clustering/minhash.py fog/lsh/minhash.py fog/clustering/utils.py',
  [('neighbour heaps, local joins', 'fog/clustering/nn_descent.py'), ('bands', 'fog/clustering/minhash.py')],
  'fog.clustering.nn_descent, fog.clustering.minhash')

P('C19', 'LSH signatures depend on the token set only and obey the union law',
  'MinHash and SuperMinHash signatures depend only on the set of tokens, the length and the seed, and the signature of a '
  'union is the element-wise minimum of the signatures; the lowest-bit signature holds the lowest bits of the MinHash '
  'of the same seed. The similarity estimators are the exact proportion of equal '
  'positions (for the lowest-bit signature: twice that proportion, minus one), which comes close to the Jaccard similarity of the sets whatever their sizes. A simhash bit is the majority of that bit over the hashes of the tokens.',
  'inputs configurations', 'all token collections, lengths, seeds and implementations',
  'The tests check one estimate within a tolerance, which many wrong signatures satisfy.',
  'fog/lsh/minhash.py fog/lsh/simhash.py fog/lsh/utils.py',
  [('linear permutations, minima', 'fog/lsh/minhash.py'), ('bit counters', 'fog/lsh/simhash.py')],
  'fog.lsh.MinHash, fog.lsh.SuperMinHash, fog.lsh.LSBMinHash, fog.lsh.simhash')

P('C20', 'Levenshtein keys and blocks never separate close strings',
  'Two strings within Levenshtein (or adjacent-swap Damerau) distance 1 always share a 1d key and a 1d block, and two strings within '
  'distance 2 always share a 2d block. Sharing a levenshtein_1d key implies distance at most 1, sharing a damerau '
  '1d key implies Damerau distance at most 2, and the number of keys stays linear in the length.',
  'inputs', 'all pairs of strings free of the flag characters',
  'The tests compare key sets of a few words; a missing key only shows for particular positions, parities and '
  'lengths.',
  'fog/key/levenshtein.py',
  [('deletion keys, halves and thirds of the string', 'fog/key/levenshtein.py')],
  'fog.key.levenshtein_1d_keys, fog.key.levenshtein_1d_blocks, fog.key.levenshtein_2d_blocks, '
  'fog.key.damerau_levenshtein_1d_keys, fog.key.damerau_levenshtein_1d_blocks, fog.key.damerau_levenshtein_2d_blocks')

P('C21', 'Monopartite projection is exactly the thresholded similarity of neighborhoods',
  'The projection of a bipartite graph holds every node of the wanted part with its attributes, and '
  'an edge between two of them if and only if the chosen measure of their neighborhoods (the number of common neighbors by default) is not zero and reaches the threshold, weighted by '
  'that measure. Walking the topology or comparing every pair gives the same graph. A graph that is not bipartite '
  'with respect to the parts is refused with a TypeError and the source graph is never changed.',
  'inputs configurations', 'all bipartite graphs, measures, thresholds, weights, with and without topology',
  'The tests project one small graph; wrong counters need shared neighbours of particular multiplicities.',
  'fog/graph/projection.py fog/metrics/cosine.py fog/metrics/jaccard.py',
  [('two-hop walk or quadratic comparison', 'fog/graph/projection.py')],
  'fog.graph.monopartite_projection')

P('C22', 'Floatsam sparsification stops at its threshold and removes exactly what is below',
  'floatsam_sparsification always terminates and returns the last threshold reached by steps before the next step would leave no edge '
  'or a second largest component of at least the drifter size. It removes exactly the edges whose weight is under '
  'that threshold if asked to (else none) and keeps every node. The component sizes it relies on are exact for every edge filter.',
  'inputs configurations', 'all weighted graphs, starting thresholds, steps and drifter sizes',
  'There is no test of the sparsification; component sizes are tested on one graph.',
  'fog/graph/sparsification.py fog/graph/utils.py',
  [('threshold climbing', 'fog/graph/sparsification.py'), ('component_sizes', 'fog/graph/utils.py')],
  'fog.graph.floatsam_sparsification, fog.graph.utils.component_sizes')

P('C23', 'hashjoin is exactly the equijoin of its two sides',
  'hashjoin yields a pair (left, right) for every two elements whose keys are equal or, with several keys, share at '
  'least one key, as many times as a nested loop over the two sides would, and no other pair. This holds whichever '
  'side is larger and whether sides and keys come as lists, sets, generators or other iterables.',
  'inputs configurations', 'all keyed collections on both sides and all container types',
  'The tests join two lists; exhausted iterators and repeated keys are not among them.',
  'fog/join/hashjoin.py', [('hash index of one side', 'fog/join/hashjoin.py')], 'fog.join.hashjoin')

P('C24', 'Clustering evaluation computes exact best-matching precision, recall and F1',
  'best_matching_macro_average returns the averages over truth clusters of the precision, recall and F1 of the '
  'predicted cluster with the best F1, items unknown to the truth being ignored when allowed, whatever the order and containers of the clusters. Malformed clusterings '
  '(empty ones, overlapping predictions, missing items, unknown ones unless allowed) raise TypeError. Converting '
  'clusters to labels and labels to clusters is lossless.',
  'inputs configurations', 'all pairs of clusterings and all labellings',
  'The tests evaluate three examples; ties, singletons and additional items are rare there.',
  'fog/evaluation/best_matching.py fog/evaluation/utils.py',
  [('inverted index of predictions', 'fog/evaluation/best_matching.py'), ('checks', 'fog/evaluation/utils.py')],
  'fog.evaluation.best_matching_macro_average, fog.evaluation.labels_to_clusters, fog.evaluation.clusters_to_labels')

TOK = 'fog/tokenizers/words.py'

P('C25', 'The word tokenizer loses, invents and reorders nothing',
  'For any text, words_tokenizer terminates and yields tokens in the order of the text. No token is empty or holds whitespace. Their concatenation is '
  'the text without its whitespace and ASCII control characters, the only other characters left out being the hyphens of French unions '
  '(va-t-on, dis-je) and, with split_hashtags, the sigils. Whitespace separates: the tokens of two texts joined by a blank are those of the first followed by those of the '
  'second, unless the first ends with an abbreviation and its period.',
  'inputs', 'all Unicode texts',
  'The tests tokenize some forty sentences; text is lost only where particular lexical classes meet, mostly at the end of the text.',
  TOK, [('scanner with lookahead', TOK + ':WordTokenizer.tokenize')],
  'fog.tokenizers.words_tokenizer, fog.tokenizers.words.WordTokenizer')

P('C26', 'The word tokenizer cuts and labels tokens according to its lexical rules',
  'For any text, the tokens and their kinds are those of the lexical rules. Smileys and arrows, hashtags (# or $ and letters or digits, the first being a letter), '
  'mentions (@, ASCII letters, digits, _) and numbers (digits, optional minus sign, one point or comma between digits) end where their characters end. '
  'http(s) urls and emails run up to whitespace or a comma. Words run over letters, digits and inner hyphens, underscores and middle points. '
  'Acronyms (O.N.U.) and, when text follows, abbreviations (Mr.) keep their periods. English contractions and French elisions split at the apostrophe, consonant-to-consonant ones stay whole; '
  'French unions split. Emojis keep their variation selector, any other symbol is a punctuation token of one character. split_hashtags cuts at '
  'changes of case and at numbers. The kind of a lone digit is left open.',
  'inputs', 'all Unicode texts',
  'The tests tokenize some forty sentences; each rule interacts with what precedes and follows it.',
  TOK, [('scanner with lookahead', TOK + ':WordTokenizer.tokenize'), ('hashtag splitting', TOK)],
  'fog.tokenizers.words_tokenizer, fog.tokenizers.words.WordTokenizer')

P('C27', 'The options of the word tokenizer are exact filters over its tokens',
  'Whatever the combination of options, the tokens are those of the default tokenizer (on the unescaped, transliterated or reduced text if asked), from which '
  'keep/drop select by kind, before mentions and hashtags are normalised or turned into words if asked; lower applies to words, '
  'stoplist (ignoring case if lower is set) and minimum and maximum word lengths drop words. Unknown kinds and keep together with drop raise TypeError. '
  'A tokenizer keeps nothing from one call to the next, even when calls interleave.',
  'inputs configurations histories', 'all texts, combinations of options and histories of calls',
  'The tests try each option alone on a sentence or two; options interact.',
  TOK, [('options and post-processing', TOK + ':WordTokenizer')], 'fog.tokenizers.words.WordTokenizer')

P('C28', 'Fingerprints ignore case, accents, symbols, order and repetition',
  'fingerprint(text) is the sorted, distinct, blank-separated tokens of the lowercase transliteration of the text reduced to ASCII letters, digits and blanks. '
  'Hence it depends neither on case, accents, symbols, kind of blanks, order nor repetition, and the fingerprint of a fingerprint is itself. ngrams_fingerprint(n, text) '
  'is the sorted distinct n-grams of the same letters without blanks. The options drop digits, small tokens, stopwords, repeated letters, or turn the given '
  'characters into blanks; keyers and tokenizers agree.',
  'inputs configurations', 'all Unicode texts and combinations of options',
  'The tests compare a dozen names; characters whose transliteration is unusual and options that interact are not among them.',
  'fog/key/fingerprint.py fog/tokenizers/fingerprint.py', [('normalisation', 'fog/tokenizers/fingerprint.py'), ('keyers', 'fog/key/fingerprint.py')],
  'fog.key.fingerprint, fog.key.ngrams_fingerprint, fog.key.FingerprintingKeyer, fog.tokenizers.fingerprint_tokenizer')

P('C29', 'N-grams and letter keys equal their definitions',
  'ngrams(n, x) are all windows of n consecutive elements of a string or sequence, in order, or the whole sequence if shorter; joining the n-grams of a string gives it back. '
  'ngram_keys(n, s, threshold) are exactly the concatenations of the in-order selections of at least floor(threshold * number of n-grams), and at least one, n-grams of s, so strings that share as many '
  'n-grams in order as both require share a key. skeleton_key is the first letter followed by the distinct other consonants then vowels in order of appearance; omission_key '
  'is the distinct consonants in omission order followed by the distinct vowels in order of appearance; both look at the ASCII letters of the transliteration only. '
  'zig_zag orders by the item, then by the reversed item.',
  'inputs configurations', 'all strings and sequences, sizes and thresholds',
  'The tests compare a few words.',
  'fog/tokenizers/ngrams.py fog/key/misc.py fog/key/skeleton.py fog/key/omission.py',
  [('n-gram windows', 'fog/tokenizers/ngrams.py'), ('keys', 'fog/key')],
  'fog.tokenizers.ngrams, fog.key.ngram_keys, fog.key.skeleton_key, fog.key.omission_key, fog.key.zig_zag')

P('C30', 'Phonetic codes follow their published rules for every name',
  'cologne(name) is the code of the Cologne phonetic procedure: every letter of the transliterated name is coded according to its neighbours, consecutive equal digits are collapsed, '
  'then zeros are dropped except a leading one. rusalka(name) is the result of applying its ordered rewriting rules for Russian names to the '
  'letters of the transliterated name. Both ignore case and symbols and are defined for every string, the empty one included.',
  'inputs', 'all strings',
  'The tests compare lists of usual names; rules interact on letters which those names do not put side by side.',
  'fog/phonetics/cologne.py fog/phonetics/rusalka.py', [('letter rules', 'fog/phonetics/cologne.py'), ('rewriting rules', 'fog/phonetics/rusalka.py')],
  'fog.phonetics.cologne, fog.phonetics.rusalka')

P('C31', 'fog split and fog transform keep every row and change only the given cells',
  'fog split writes, for each row in order, one row per value of the split cell, all other cells unchanged, the value replacing the cell or, with a target column, being added as last cell; '
  'the column may be renamed. fog transform writes each row once, in order, the result of the chain of operations being put in place of the cell, or, under a new name, in a last column or in the column right after it. Quotes, separators, '
  'line feeds and blank lines of a CSV file change nothing. An unknown column fails without output rows.',
  'inputs configurations', 'all CSV files with rows as long as their header, all options',
  'No test runs the command line.',
  'fog/cli/split.py fog/cli/transform.py fog/cli/utils.py fog/cli/__main__.py',
  [('row duplication', 'fog/cli/split.py'), ('operation chain', 'fog/cli/transform.py'), ('CSV reading', 'fog/cli/utils.py')],
  'the fog split and fog transform commands')

P('C32', 'fog cluster writes valid reports of exactly the values that collide',
  'fog cluster lists exactly the groups of at least two distinct values of the column that share a non-empty fingerprint, with the number of rows of each value, the most frequent '
  'value coming first and being the suggested one. Whatever characters the values hold, the TOML report is valid TOML which reads back as these values and counts, and the HTML report is well-formed and shows them. '
  'The numbers of lines, distinct values and clusters of the report match the column.',
  'inputs configurations', 'all columns of values and both formats',
  'No test runs the command line.',
  'fog/cli/cluster.py fog/cli/reporting/html.py fog/cli/reporting/toml.py fog/cli/utils.py',
  [('grouping', 'fog/cli/cluster.py'), ('reports', 'fog/cli/reporting')], 'the fog cluster command')

P('C33', 'OnlineMean is the exact running mean; squeeze removes exactly the repetitions',
  'After any history of additions, subtractions of values added before, and sums of means, OnlineMean gives the mean and number of the values it holds, and raises StatisticsError when it holds none; the operands of a sum are unchanged and '
  'anything but a mean is refused with TypeError. squeeze(text) keeps exactly one of each run of a same character and, '
  'if asked to, leaves runs of the roman numerals I, X, C, M alone.',
  'inputs histories', 'all histories of operations on means and all strings',
  'The tests follow one history.',
  'fog/utils.py', [('running mean', 'fog/utils.py:OnlineMean'), ('squeeze', 'fog/utils.py:squeeze')], 'fog.utils.OnlineMean, fog.utils.squeeze')

P('C34', 'No call changes its arguments or the result of another call',
  'The result of any call of the library (random ones being given a seed) is the same whatever calls were made before it and however the consumption of lazy results is interleaved. '
  'No call changes the arguments it is given (graphs included, unless removal of edges was asked for), whether its result is consumed fully, partly or not at all. Data may be given as any iterable.',
  'inputs histories schedules', 'all histories of calls and all interleavings of lazily consumed results',
  'Tests make each call in a fresh state once; state kept in defaults, module globals or mutated arguments shows only in the following calls.',
  'fog/clustering fog/graph fog/join fog/key fog/lsh fog/metrics fog/evaluation fog/tokenizers fog/phonetics',
  [('module state, default arguments, in-place changes', 'fog')],
  'every public function of fog.clustering, fog.graph, fog.join, fog.key, fog.lsh, fog.metrics, fog.evaluation, fog.tokenizers, fog.phonetics')


P('C35', 'An option left out takes its documented default, whatever the others are',
  'For every public function, class and command with options, leaving an option out gives the same result as passing its documented default, whatever the other options and the data are, at the cost of as many distances: '
  'clusters of 2 items and more and of any size, connected components, jaccard at 0.8 for the intersection index and for minhash (256 hashes, guessed bands, no numpy), a window of 10, '
  'k = log2(n) rounded down, rho 0.5 and delta 0.001, merged collisions, frequency ordering, blocks of 500 and beta 1, 256 and 8 * 64 bit signatures, 128 bit simhashes, fingerprints that keep digits and all tokens, '
  'ngram_keys at 0.8, no transpositions, floatsam from 0.0 by 0.05 with drifters of log(n), projections by weight without metric but with a check, word tokenizers with everything off, '
  'fingerprint_collision in TOML and the separator |.',
  'inputs configurations', 'all inputs and all assignments of the other options',
  'Tests pass the options they are about and leave the other ones out on one input each, most often one on which the default does not matter.',
  'fog/clustering fog/graph fog/key fog/lsh fog/evaluation fog/tokenizers fog/utils.py fog/cli/__main__.py',
  [('signatures and forwarding of options', 'fog')], 'every public function of fog with optional arguments, the fog cluster and fog split commands')

P('C36', 'Malformed requests are refused, never answered',
  'A clustering mode other than the accepted ones (leader being accepted by pairwise only), a call without similarity and distance, an unknown metric, token ordering or a tokenizer that cannot be called, '
  'are refused with TypeError before any result is given, whatever the data, the empty one included (nn_descent: two items and more), and the other options. simhash refuses any size of more than two bits which is not a power of two up to 512. '
  'The command line fails without writing anything for unknown columns, operations, algorithms, report types and subcommands. Accepted names are accepted.',
  'inputs configurations', 'all names, inputs and options',
  'Tests try one wrong name where they try any; a lookup that falls back on a default, or a check that is reached only when there is something to cluster, answers a request nobody made.',
  'fog/clustering fog/graph/projection.py fog/lsh/simhash.py fog/cli',
  [('argument validation', 'fog/clustering/utils.py'), ('modes', 'fog/clustering/pairwise.py'), ('metrics', 'fog/clustering/ppjoin.py'), ('command line', 'fog/cli')],
  'every clustering function, fog.graph.monopartite_projection, fog.lsh.simhash, the fog commands')

P('C37', 'Errors of the functions, data and streams given reach the caller',
  'Whenever a function given to the library (distance, similarity, key, keys, block, blocks, tokenizer), an iterable it reads or an element it hashes raises an error, at any call or element, '
  'the call fails with that very error, with one process as with several: it is never swallowed nor taken for "not similar", "no key" or the end of the data. What was yielded before is part of the right result, '
  'and later calls are not affected. The commands fail likewise when a line cannot be read, a piece of output cannot be written or an expression fails, and what they wrote is a beginning of the right output.',
  'inputs histories', 'all calls, all functions and iterables given to them, all kinds of errors and all points where they can arise',
  'Tests only hand over functions and data that never fail; a handler added for one purpose silently turns other failures into wrong clusters at one particular call out of many.',
  'fog/clustering fog/join/hashjoin.py fog/evaluation fog/lsh fog/cli fog/metrics fog/tokenizers/ngrams.py',
  [('calls of the given functions', 'fog/clustering'), ('workers', 'fog/clustering/pairwise.py'), ('side detection', 'fog/join/hashjoin.py'), ('rows read and written', 'fog/cli')],
  'every function taking a function or an iterable, the fog commands')

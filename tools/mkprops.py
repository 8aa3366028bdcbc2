#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/mkprops.py > properties.jsonl)."""
import json

def P(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    print(json.dumps({"id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a}, ensure_ascii=False))

P("C01", "Tokenization is lossless",
  "For a tokenizer whose vocabulary contains every single byte, encoding any text (with or without special-token recognition, at any dropout) terminates and succeeds. Decoding the resulting IDs with special tokens included returns exactly the text, after the tokenizer's configured processors have rewritten the stretches between special tokens; without processors that is the input itself, byte for byte. Decoding with special tokens excluded returns the same text with just the special tokens cut out.",
  ["inputs", "configurations"], "every vocabulary containing all 256 bytes, every list of processors and special tokens, every valid UTF-8 text, every dropout",
  "One unit test round-trips one Chinese sentence through a byte-only vocabulary; multi-byte tokens that split characters, processors, special tokens and dropout are never combined.",
  ["src/tokenizer.rs", "src/model.rs", "src/processor.rs"],
  [("special token splitter", "src/tokenizer.rs SpecialTokenSplitter"), ("DP encode and backtrack", "src/model.rs Model::encode"), ("byte concatenation before UTF-8 decoding", "src/model.rs Model::decode")],
  ["Tokenizer::encode", "Tokenizer::encode_ordinary", "Tokenizer::decode"])

P("C02", "Encoding returns a highest-scoring segmentation, or reports that none exists",
  "Without dropout, encoding a text returns token IDs whose byte strings concatenate to exactly the (processed) text and whose total score is the maximum over all ways of segmenting that text into vocabulary tokens. When no such segmentation exists it returns the no-path error, and only then. Encoding the same text twice gives the same IDs.",
  ["inputs", "configurations"], "every vocabulary with finite scores (complete or not, with tokens cutting through UTF-8 characters, positive, zero or negative scores) and every text",
  "The unit tests encode two short ASCII strings; optimality quantifies over exponentially many segmentations of every text under every score assignment, and the unreachable-position handling is never exercised.",
  ["src/model.rs", "src/trie.rs", "src/tokenizer.rs"],
  [("Viterbi DP over reachable positions", "src/model.rs Model::encode"), ("prefix enumeration", "src/trie.rs TrieIterator")],
  ["Model::encode", "Tokenizer::encode_ordinary"],
  [("dp", "best score and last token for each prefix length", "src/model.rs Model::encode")])

P("C03", "Dropout omits multi-byte tokens with the given probability and nothing else",
  "With dropout p, the output is still a valid segmentation of the text; p at or below 0 gives exactly the deterministic encoding, p at or above 1 leaves only single-byte tokens, and special tokens are never dropped. For p in between, each occurrence of each multi-byte token is omitted independently with probability p, and single-byte tokens are never omitted. The same holds for the candidate tokens of a segmentation lattice.",
  ["inputs", "configurations"], "every vocabulary, every text and every dropout value, over repeated random draws",
  "The only dropout test checks p=1 on one string and prints the result at p=0.5 without asserting anything.",
  ["src/model.rs", "src/tokenizer.rs"],
  [("per-occurrence draw", "src/model.rs Model::encode"), ("per-occurrence draw", "src/model.rs Model::populate_nodes")],
  ["Tokenizer::encode", "Model::encode", "Model::populate_nodes"])

P("C04", "Special tokens are recognised leftmost, verbatim and only when asked",
  "Encoding with special-token recognition cuts the text at the leftmost occurrence of any registered non-empty special token, the earliest registered one winning when several start at the same place, and continues after it. Each cut yields that token's own ID, and each stretch in between is processed and encoded on its own, exactly as ordinary encoding would encode it; special tokens are matched in the raw text, before processors. Ordinary encoding never yields a special-token ID.",
  ["inputs", "configurations"], "every list of special tokens (overlapping, nested, prefixes of each other, duplicated, empty, multi-byte) and every text",
  "The splitter test uses three non-overlapping tokens on five strings and never runs the encoder, processors or overlapping tokens.",
  ["src/tokenizer.rs"],
  [("leftmost search in registration order", "src/tokenizer.rs SpecialTokenSplitter::next"), ("special IDs offset by base vocabulary size", "src/tokenizer.rs Tokenizer::encode")],
  ["Tokenizer::encode", "Tokenizer::encode_ordinary"])

P("C05", "Token IDs and tokens stay in one consistent mapping through any history",
  "After any history of creating, cloning, extending with base or special tokens, saving and reloading a tokenizer, base tokens own IDs 0..n in insertion order and the distinct special tokens own the IDs right after them in registration order; every size, membership, token-to-ID and ID-to-token query agrees with that and rejects every other ID or token. Adding special tokens that are already registered changes nothing, adding base tokens shifts special IDs to stay behind them, and copies evolve independently. Every ID that encoding emits is the ID its own token maps to.",
  ["histories", "inputs"], "every sequence of add-base, add-special, clone, save/load operations, and every ID and token queried after each step",
  "No existing test calls any of the ID/token query functions or adds a token after construction.",
  ["src/tokenizer.rs", "src/model.rs"],
  [("special_tokens / special_tokens_map kept in step", "src/tokenizer.rs Tokenizer::add_special_tokens"), ("vocab / token_to_ids / trie kept in step", "src/model.rs Model::add_tokens")],
  ["Tokenizer::vocab_size", "Tokenizer::id_to_token", "Tokenizer::token_to_id", "Tokenizer::is_special", "Tokenizer::encode"],
  [("special_tokens_map", "special token to index", "src/tokenizer.rs Tokenizer"), ("token_to_ids", "token bytes to ID", "src/model.rs Model")])

P("C06", "Decoding any ID sequence is total and exact",
  "Decoding any sequence of IDs never panics: it fails with an out-of-bounds error naming an offending ID if and only if the sequence contains an ID that is neither a base nor a special token. Otherwise the result is the concatenation of the tokens in order, base-token bytes being joined before invalid UTF-8 is replaced, and special tokens appearing verbatim, or not at all when they are excluded.",
  ["inputs", "configurations"], "every tokenizer and every finite sequence of 32-bit IDs, including runs that end inside a UTF-8 character",
  "The only decode test decodes the IDs of one encoded sentence; out-of-range IDs, special tokens and partial characters are never decoded.",
  ["src/tokenizer.rs", "src/model.rs"],
  [("bounds check and byte join", "src/model.rs Model::decode"), ("special token interleaving", "src/tokenizer.rs Tokenizer::decode")],
  ["Tokenizer::decode", "Model::decode"])

P("C07", "Batch operations equal element-wise operations at any parallelism",
  "Encoding or decoding a batch returns, in input order, exactly what the single-item operation returns for each element, whatever the batch size and the number of worker threads. It fails if and only if some element fails on its own, with the error of such an element.",
  ["inputs", "schedules", "configurations"], "every batch (empty, singleton, hundreds of items, duplicated and failing items) and every thread-pool size",
  "No existing test calls a batch function.",
  ["src/tokenizer.rs"],
  [("order-preserving parallel collect", "src/tokenizer.rs Tokenizer::encode_batch / decode_batch")],
  ["Tokenizer::encode_batch", "Tokenizer::encode_ordinary_batch", "Tokenizer::decode_batch"])

P("C08", "Saving and loading a tokenizer preserves it",
  "Serialising a tokenizer to a string or file and loading it back yields the same base tokens (any bytes), scores, keep flags, special tokens (any string) and processors, in the same order, and hence identical behaviour. The document is version 2.0 JSON in which a token is written as a string when it is valid UTF-8 and as unpadded base64 marked as encoded otherwise.",
  ["inputs", "configurations"], "every tokenizer with finite scores: arbitrary token bytes, special tokens with quotes, backslashes and control characters, every processor list",
  "The only serialisation test round-trips one ASCII token with score 0.5; no test serialises a tokenizer.",
  ["src/lib.rs", "src/tokenizer.rs", "src/processor.rs"],
  [("token encoding flag and base64", "src/lib.rs Serialize/Deserialize for ScoredToken"), ("document fields", "src/tokenizer.rs Serialize/Deserialize for Tokenizer"), ("type tags", "src/processor.rs")],
  ["Tokenizer::to_string", "Tokenizer::from_str", "Tokenizer::save", "Tokenizer::from_file"])

P("C09", "Loading arbitrary input is safe and strict",
  "Loading a tokenizer from any string or file either succeeds or returns an error; it never panics or hangs. Documents that are not JSON, lack the version or have one other than 2.0, contain unknown fields, a token without value or score, invalid base64 in an encoded token, or an unknown processor or normal form are rejected, and documents following the format are accepted with the content they describe, whatever the order of their fields.",
  ["inputs"], "every byte string offered as a tokenizer document; structured mutations of valid documents",
  "No existing test loads a tokenizer document, valid or not.",
  ["src/tokenizer.rs", "src/lib.rs", "src/processor.rs"],
  [("field and version checks", "src/tokenizer.rs TokenizerVisitor::visit_map"), ("field checks", "src/lib.rs ScoredTokenVisitor::visit_map"), ("type/form checks", "src/processor.rs visitors")],
  ["Tokenizer::from_str", "Tokenizer::from_file"])

P("C10", "Processors normalise text as named, in order, and only on the way in",
  "The crlf processor replaces every CR LF pair by LF and nothing else; the nfc, nfd, nfkc and nfkd processors apply exactly the Unicode normalisation form they are named after. Several processors apply in the listed order to every ordinary stretch of text before encoding, and decoding does not alter text further.",
  ["inputs", "configurations"], "every text (combining sequences, Hangul, compatibility characters, lone CR and LF) and every list of processors",
  "No existing test runs a processor.",
  ["src/processor.rs", "src/tokenizer.rs"],
  [("CrlfProcessor / UnicodeProcessor preprocess", "src/processor.rs"), ("processor fold", "src/tokenizer.rs Tokenizer::encode / encode_ordinary / decode")],
  ["Tokenizer.encode_ordinary and decode through the Python binding", "saved documents"])

P("C11", "Prefix search returns exactly the tokens that are prefixes",
  "Searching the vocabulary for the prefixes of a byte string yields exactly the non-empty vocabulary tokens that are prefixes of it, each once, in increasing length, with its current ID and length. This holds after any history of additions, a token added again replacing the earlier entry.",
  ["inputs", "histories"], "every set and order of inserted byte strings and every query, including empty and non-UTF-8 ones",
  "No existing test calls the prefix search directly.",
  ["src/trie.rs", "src/model.rs"],
  [("trie walk", "src/trie.rs Trie::push / TrieIterator::next"), ("trie kept in step with vocabulary", "src/model.rs Model::from / add_tokens")],
  ["Model::common_prefix_search", "Trie::common_prefix_search"])

P("C12", "Lattice best and n-best paths are the true top segmentations",
  "For any sentence and candidate tokens, the lattice's best path is a contiguous cover of the sentence by candidate tokens with maximum total score. Asking for n paths returns the min(n, all) highest-scoring distinct segmentations in non-increasing order of score, and none when no segmentation exists. A lattice object can be reused for any sequence of sentences with the same results as a fresh one.",
  ["inputs", "histories"], "every sentence, candidate set (complete or not), n, and every sequence of sentences run through one lattice",
  "The lattice test module is commented out; nothing exercises the lattice.",
  ["src/lattice.rs", "src/model.rs"],
  [("forward Viterbi", "src/lattice.rs Lattice::viterbi"), ("A* over backward hypotheses", "src/lattice.rs Lattice::nbest"), ("state reset", "src/lattice.rs Lattice::from")],
  ["Lattice::viterbi", "Lattice::nbest"],
  [("nodes / begin_nodes / end_nodes", "current candidate tokens", "src/lattice.rs Lattice")])

P("C13", "Lattice marginals are the exact posterior token expectations",
  "For any sentence and scored candidate tokens that can segment it, the returned normaliser is the log of the total weight of all segmentations, and each token's expected count grows by the posterior expected number of its occurrences, added to whatever the accumulator held. Consequently the expected counts weighted by token length sum to the sentence length.",
  ["inputs", "histories"], "every sentence and candidate set with a segmentation, short ones against enumeration and long ones against an independent forward-backward, with reuse of one lattice",
  "Nothing exercises the forward-backward computation; the commented-out test only prints it.",
  ["src/lattice.rs"],
  [("forward-backward in log space", "src/lattice.rs Lattice::populate_marginal"), ("log_sum_exp", "src/lattice.rs log_sum_exp")],
  ["Lattice::populate_marginal"])

P("C14", "Generated vocabularies are well formed and honour every constraint",
  "A generated vocabulary has pairwise distinct tokens, contains all 256 single bytes marked keep, and never exceeds the requested size (or 256 if larger). Every other token is an added token (marked keep), a suggested token, or a substring on character boundaries of a processed training sample, within one match of the split pattern if one is given, that matches the allow pattern and is at most the maximum length in bytes; added and suggested tokens take precedence in the order given. Its scores are log-probabilities summing to one in non-increasing order, and the saved tokenizer carries the requested processors and special tokens.",
  ["inputs", "configurations"], "every corpus, size, allow/split pattern, maximum length, insert probability, added, suggested and special tokens, processors, at any thread count",
  "One unit test checks that one word is present in a vocabulary generated from four sentences.",
  ["src/generate.rs", "src/cli.rs"],
  [("candidate enumeration", "src/generate.rs VocabularyGenerator::feed"), ("assembly and normalisation", "src/generate.rs VocabularyGenerator::generate / logprobs"), ("option plumbing", "src/cli.rs generate_cmd")],
  ["tokengeex generate: the saved tokenizer"])

P("C15", "Generation counts samples exactly and keeps the most frequent candidates",
  "With insert probability 1, the frequency of a candidate is the number of training samples that contain it as a candidate (or, for an added or suggested token, as any substring), plus one for each time it is listed as added or suggested, whatever the thread count, sample order or division into files. The vocabulary is filled with the most frequent candidates, and each token's probability is proportional to its frequency times its length (bytes: to the highest frequency). With insert probability p, each occurrence counts only with probability p, and none at 0.",
  ["inputs", "configurations", "schedules"], "every corpus and option set at insert probability 1 and 0 exactly, and in distribution in between; thread counts 1 to 8",
  "The unit test does not look at frequencies, scores or the selection.",
  ["src/generate.rs"],
  [("per-sample set, merged counts", "src/generate.rs VocabularyGenerator::feed"), ("sort by frequency and fill", "src/generate.rs VocabularyGenerator::generate")],
  ["tokengeex generate: the saved tokenizer"])

P("C16", "Pruning terminates, keeps what it must and only removes",
  "Pruning a tokenizer whose single bytes are marked keep always terminates. The result contains only tokens of the input with their keep flags, among them every token marked keep, has at most the target size unless the keep tokens alone exceed it, and is sorted by finite scores; special tokens and processors are unchanged, and every training sample still encodes and decodes to itself. A tokenizer already at or below the target size is left as it is.",
  ["inputs", "configurations", "schedules"], "every such tokenizer, corpus, target size (including below the number of keep tokens), shrink factor, EM iteration count, dropout and thread count",
  "The only test in the pruner prints digamma values without asserting anything.",
  ["src/prune.rs", "src/cli.rs"],
  [("outer loop", "src/prune.rs ModelVocabularyPruner::prune"), ("candidate selection", "src/prune.rs ModelVocabularyPruner::prune_vocab"), ("keep handling", "src/prune.rs run_m_step / prune_vocab")],
  ["tokengeex prune: the saved tokenizer"])

P("C17", "Pruning re-estimates scores by EM and drops the least useful tokens",
  "Each EM iteration computes every token's expected number of occurrences in the training samples under the current scores, drops non-keep tokens expected less than half a time, and sets each remaining score to digamma of its expected count (floored at one half) minus digamma of their sum. Each pruning step then shrinks the vocabulary by the shrink factor, but not below the target, keeping tokens in decreasing order of estimated likelihood loss upon removal (their best alternative segmentation taking over their occurrences, the total growing accordingly), along with keep tokens and those with no alternative; tokens that occur in no best segmentation of a sample are all dropped. Dropout omits tokens while expected counts are computed and nowhere else; without it the outcome does not depend on thread count or sample order.",
  ["inputs", "configurations", "schedules"], "every tokenizer, corpus, target, shrink factor and EM iteration count without dropout, up to numerical ties; thread counts 1 to 8",
  "Nothing tests the E-step, the M-step or the selection.",
  ["src/prune.rs", "src/lattice.rs"],
  [("E-step", "src/prune.rs run_e_step"), ("M-step", "src/prune.rs run_m_step, digamma"), ("loss", "src/prune.rs prune_vocab")],
  ["tokengeex prune: the saved tokenizer"])

P("C18", "Filtering removes exactly the lowest-scoring eligible tokens",
  "Filtering removes only tokens whose score is lower than the minimum score and that are not marked keep (unless forced), lowest scores first, and stops at the given vocabulary size; it removes as many as that allows. Remaining tokens keep their scores and keep flags and end up in non-increasing score order; special tokens and processors are unchanged. Without a minimum score, or when the vocabulary is already small enough, nothing is removed.",
  ["inputs", "configurations"], "every tokenizer (ties, scores equal to the threshold, keep flags), target size, minimum score and force flag",
  "The filter has no tests.",
  ["src/filter.rs", "src/cli.rs"],
  [("eligibility and count", "src/filter.rs VocabularyFilter::filter"), ("option plumbing", "src/cli.rs filter_cmd")],
  ["tokengeex filter: the saved tokenizer"])

P("C19", "Merging only appends valid, new tokens and always terminates",
  "Merging always terminates, leaves every existing token with its ID, score and keep flag, and appends at most the requested number of tokens. Each appended token is the concatenation of two tokens present before its round, is not already in the vocabulary, matches the allow pattern, is no longer than the maximum length in bytes, and has as score the sum of the two scores times the scale factor; special tokens and processors are unchanged.",
  ["inputs", "configurations", "schedules"], "every byte-complete tokenizer, corpus, allow pattern, merge count, step, scale factor (below, at and above 1), maximum length and thread count",
  "The merge command has no tests.",
  ["src/merge.rs", "src/cli.rs"],
  [("merge loop and candidate filter", "src/merge.rs ModelVocabularyMerger::merge"), ("append", "src/model.rs Model::add_tokens")],
  ["tokengeex merge: the saved tokenizer"])

P("C20", "Merging picks the most frequent allowed pairs",
  "In each round, adjacent token pairs are counted over all training samples encoded with the current vocabulary, and the allowed pairs that would create new tokens are merged in order of decreasing count, up to the step size and the number of merges still wanted. Rounds repeat until the requested number of merges is reached or a round finds nothing to merge. The counts do not depend on thread count, sample order or division into files.",
  ["inputs", "configurations", "schedules"], "every tokenizer, corpus and option set, up to the order of equally frequent pairs; thread counts 1 to 8",
  "The merge command has no tests.",
  ["src/merge.rs", "src/cli.rs"],
  [("pair counting and ranking", "src/merge.rs ModelVocabularyMerger::merge")],
  ["tokengeex merge: the saved tokenizer"])

P("C21", "Mining returns the most frequent matches with exact counts",
  "Mining counts every non-overlapping leftmost match of any given pattern (earlier patterns preferred at the same place) across all training samples and writes the requested number of distinct matches with the highest counts, in non-increasing order of count, or all of them if there are fewer. The outcome does not depend on thread count, sample order or division into files, up to ties.",
  ["inputs", "configurations", "schedules"], "every corpus, pattern list and requested number; thread counts 1 to 8",
  "The unit test mines four short samples with one pattern, in a single chunk per sample.",
  ["src/mine.rs", "src/regex.rs", "src/cli.rs"],
  [("per-chunk counts merged", "src/mine.rs IdiomMiner::mine"), ("alternation", "src/regex.rs build_mine_regex")],
  ["tokengeex mine: the written JSON"])

P("C22", "A compiled allow regex accepts exactly the union of its patterns",
  "The regex file compiled from a list of named or custom patterns, as used by generate and merge, accepts a token if and only if at least one of the patterns matches the whole token. No pattern's alternatives, quantifiers or flags leak into the others.",
  ["inputs", "configurations"], "every non-empty list of patterns and every token",
  "The only test for regexes matches a fixed list of examples per named pattern, fails at the pinned commit, and never runs the compilation.",
  ["src/regex.rs", "src/cli.rs"],
  [("anchoring and alternation", "src/regex.rs build_allow_regex"), ("name resolution", "src/cli.rs load_patterns"), ("file reading", "src/cli.rs load_regex")],
  ["tokengeex regex: the written file", "tokengeex generate --allow"])

P("C23", "Named patterns match the class of strings their name describes",
  "Each named pattern listed by the regex command compiles and matches, as a whole, exactly the class of strings its name and documented examples describe: for instance lower-case words, optional-space words, one-to-three-digit numbers, wrapped words, runs of one kind of indentation, operators optionally surrounded by single spaces. The set of names is the documented one, without duplicates.",
  ["inputs"], "every named pattern against every string over the relevant alphabets, near misses included",
  "The unit test checks one to nine fixed examples per pattern, and fails at the pinned commit because of one wrong example.",
  ["src/regex.rs", "src/cli.rs", "data/exact.regex"],
  [("pattern table", "src/regex.rs PATTERNS"), ("listing", "src/cli.rs regex_cmd")],
  ["tokengeex regex (listing and compiled files)"])

P("C24", "Training data is read completely, in proportion, and validated",
  "Training sources given as name:path or name:path:proportion contribute exactly the leading proportion (rounded down) of the non-empty NUL-separated samples of their file, with boundaries, whitespace and content intact, and samples of all sources are used. A source that is malformed, missing or not valid UTF-8 makes the command fail without writing its output.",
  ["inputs", "configurations", "fault_sequences"], "every set of source files (empty samples, trailing NULs, multi-byte text, invalid bytes) and proportions",
  "No existing test reads a source file.",
  ["src/cli.rs"],
  [("load_sources", "src/cli.rs load_sources"), ("shuffling keeps all samples", "src/cli.rs shuffled_train_samples")],
  ["tokengeex mine / generate outputs and exit status"])

P("C25", "Training pipelines preserve the tokenizer contract end to end",
  "Starting from a generated tokenizer, any sequence of prune, merge and filter commands yields at every step a loadable tokenizer with the same special tokens and processors, distinct tokens, all single bytes and all other keep tokens still present, with which every training sample and any other text encodes and decodes losslessly. Prune and filter never add tokens; merge never removes any.",
  ["histories", "inputs", "configurations"], "every corpus and every sequence of training commands with arbitrary options (without forced filtering)",
  "No existing test runs a command, let alone two in sequence.",
  ["src/cli.rs", "src/generate.rs", "src/prune.rs", "src/merge.rs", "src/filter.rs", "src/tokenizer.rs"],
  [("load, transform, save", "src/cli.rs *_cmd")],
  ["files written by tokengeex generate, prune, merge, filter"])

P("C26", "The Python binding behaves as documented on every call",
  "Every method of the Python Tokenizer returns what its documentation says for the same tokenizer: optimal lossless encoding, exact decoding, batch results in order, consistent ID/token/size queries, prefix search, and round trips through strings and files. Failures to encode, decode or load surface as the documented TokenGeeXError exception, importable from the module, and never as a panic.",
  ["inputs", "configurations", "histories"], "every tokenizer document, every sequence of method calls with arguments of the documented types",
  "The Python binding has no tests.",
  ["bindings/python/src/lib.rs", "bindings/python/tokengeex.pyi"],
  [("method wrappers and error conversion", "bindings/python/src/lib.rs")],
  ["the tokengeex Python module"])

P("C27", "Python tokenizers survive pickling and report failed saves",
  "Pickling and unpickling (or copying) a Python tokenizer at any pickle protocol yields an equivalent, independent tokenizer, whatever tokens were added before. Saving either writes a file from which an equivalent tokenizer loads or raises an exception.",
  ["histories", "inputs", "fault_sequences"], "every tokenizer, history of added special tokens, pickle protocol and save destination (missing directory, directory, unwritable)",
  "The Python binding has no tests.",
  ["bindings/python/src/lib.rs"],
  [("pickle support", "bindings/python/src/lib.rs __getstate__ / __setstate__"), ("save", "bindings/python/src/lib.rs save")],
  ["pickle.dumps/loads, copy.deepcopy, Tokenizer.save"])

P("C28", "Commands either do their work completely or fail and change nothing",
  "A command (generate, prune, filter, merge, mine, regex) that is given a missing, unreadable or malformed input tokenizer, word list, regular expression, pattern, processor name, training source, number or option, lacks a required one, or cannot create or write its output, exits with a non-zero status and leaves every existing file, an older output included, exactly as it was, creating none. Otherwise it exits with status zero after writing its whole output, replacing whatever the output file held before, even when that is the command's own input, and touches no other file.",
  ["inputs", "configurations", "fault_sequences"], "every command with every combination of options, one fault at a time in its arguments, input files or output destination, with and without an older output",
  "No existing test runs a command.",
  ["src/cli.rs", "src/tokenizer.rs"],
  [("reading everything before writing", "src/cli.rs *_cmd"), ("save", "src/tokenizer.rs Tokenizer::save")],
  ["exit status", "the files in and around the output's directory"])

P("C29", "A tokenizer can be used from many threads at once",
  "Any number of threads may use one tokenizer at the same time, encoding and decoding texts and batches, asking about tokens and IDs, searching prefixes, saving it, or copying it and extending the copy. Every call returns exactly what it returns when nobody else uses the tokenizer, batches started from within other parallel work finish and return in order, and the tokenizer is unchanged afterwards.",
  ["schedules", "inputs", "histories"], "every tokenizer, every assignment of calls to threads and every interleaving of them",
  "Every existing test uses a tokenizer from one thread.",
  ["src/tokenizer.rs", "src/model.rs", "src/trie.rs"],
  [("shared references only", "src/tokenizer.rs &self methods"), ("parallel batches", "src/tokenizer.rs encode_batch / decode_batch")],
  ["results of Tokenizer methods called from several threads"])

P("C30", "Dataset, evaluation and search scripts account for every sample exactly",
  "The dataset script writes, for every language or dataset and its quotas, the accepted samples of the source, complete, unchanged, in the source's order and each followed by a NUL byte, to the test file until that holds the test quota, then to the train file until both quotas are reached, and nothing else. A sample is accepted exactly if its size, number of lines, line lengths, alphanumeric and digit fractions, encoded blobs and characters that are neither ASCII nor Chinese are within the script's limits. The evaluation script reports, for each supported tokenizer library and each sample file, the exact number of tokens and characters of its NUL-separated samples and their ratio, and the token frequencies summed over fifty equal buckets from most to least frequent; the search script reports exact counts of occurrences and of samples that contain the string.",
  ["inputs", "configurations"], "every sequence of source samples, quotas and languages; every tokenizer, set of sample files and search string",
  "The scripts have no tests.",
  ["scripts/datagen.py", "scripts/evaluate.py", "scripts/find.py"],
  [("filters and quotas", "scripts/datagen.py generate_the_stack, generate_chinese_markdown"), ("counting", "scripts/evaluate.py"), ("counting", "scripts/find.py count_occurrences")],
  ["the .bin files written by datagen.py", "the JSON report of evaluate.py", "the table printed by find.py"])

P("C31", "Baseline and conversion scripts train and convert on exactly the data given",
  "The baseline training script gives the chosen library, verbatim and in each file's order, the first floor(n x p) of the n NUL-separated samples of every .bin file in the input directory and nothing else, with the requested vocabulary size and output. The conversion script writes the named tiktoken vocabulary unchanged if no size is asked for; asked for a size v of at least 256 and given files, it writes min(v, size of the vocabulary) tokens numbered 0, 1, 2, ... without gaps: every single byte under its value, then ordinary tokens of the vocabulary by decreasing number of occurrences in the encoded samples of the files, so that no token it drops occurs more often than one it keeps. Special tokens and unused IDs of the source are neither written nor an obstacle.",
  ["inputs", "configurations"], "every set of sample files, proportion and vocabulary size; every tiktoken vocabulary",
  "The scripts have no tests.",
  ["scripts/trainbpe.py", "scripts/convert.py"],
  [("samples", "scripts/trainbpe.py load_samples"), ("truncation", "scripts/convert.py")],
  ["the samples passed to the training library", "the tiktoken file written by convert.py"])

CLAIMED={
'P01':('proof','Every cell-wise operation, conversion, comparison, construction and transposition is proved against its cell-by-cell postcondition for all dimensions and contents.'),
'P02':('proof','Both growing heuristics are proved to lie between intersection and union and to end in a fixed point, grow-diag-final to lie between them and to leave no union link with a free word.'),
'P19':('proof','Log-space sums and differences, count conversions, probability conversions and the combinatorial helpers are proved equal to their real-number definition.'),
'P22':('proof','Splitting, joining, prefix tests and last-word helpers are proved against declarative definitions over all strings.'),
'P03':('proof','Adding, looking up, decoding and clearing are proved against a pair of mutually inverse finite maps for both sides, for every string and history.'),
'P11':('proof','Setters and getters of the lexical, position-alignment and state-transition tables are proved as last-write-wins maps over all keys and histories, including isolation of the other keys and the listing of stored words (the database-backed lexical table is only exercised natively).'),
'P12':('proof','every function of both stores under contract (map/eviction, set, get, fast access, init, reset, clear); file save/load only by the native search'),
'P25':('proof','every probability function of the four tables under contract (bounds, exact values, unit mass); loading from files and Poisson by the native search'),
'P05':('proof','the whole generic algorithm (matrix filling, traceback, counting, public entry points) and the uniform-cost and character-level cell functions incl. the prefix distance are proved minimal with consistent accounting; the word-with-characters variant incl. its prefix table and incremental rows likewise, with the word replacement costs and their cache assumed (native)'),
'P17':('proof','the whole updater (arg-max scans, sampling, single-example and corpus update) is proved against a contract of the virtual scorer; scores are assumed finite'),
'P16':('proof','all metrics down to n-gram counting and edit distance are proved; only the run-matching cover behind the matching score (statsForSentence of MiraGtm) is assumed and checked by the native search'),
'P04':('proof','Bitset<160> (the size the decoders use) proved word for word with a bit-vector back end for the word lemmas; other sizes by native search against std::bitset'),
'P18':('proof','NbestTableNode under contract (multimap modelled as the ordered sequence of its elements); NbestTransTable and the iterators by native search'),
'P20':('proof','OrderedVector fully under contract including its memory handling; the linked tries by bounded native search'),
'P13':('proof','best-alignment routines of the three model families proved: per-word maxima, Viterbi recursion, back trace, cache and the final word matrix; an arbitrary competing alignment is bounded by the returned score; the parameter reads (lexical, alignment, transition, length) are ghost functions; parameters assumed positive'),
'P10':('proof','every operation of both count tables (adding, incrementing, reading, conditional probabilities, clearing) is proved against the accumulated counts; the trie under the n-gram table is used through its map interface (assumed here; tries themselves are exercised by the P20 harness), counts are real numbers; target totals and listings are bounded (native differential run)'),
'P14':('proof','single stacks and the state dictionary proved over an ordered multiset whose comparator is evaluated from its own source; scores are real numbers; the multi-stack with recombination (hash map of stacks, stored iterators) is bounded: native runs of random operation histories against an oracle'),
'P21':('proof','the whole sentence store (reading, positioning, adding, retrieving, counts) is proved over files seen as numbered lines of fields; AwkInputStream (line splitting) is an assumed contract in the proof and exercised by the native run on real files; a file with counts is assumed to have a count for every pair; printing is bounded'),
'P06':('proof','addArc, forward and backward recursions, best path, pruning, rescoring, reachable and useful states and the n-best search stack proved in exact arithmetic; nbSearch, orderArcsTopol and the regeneration of the useful graph are bounded (native, against an exhaustive enumeration of paths)'),
'P07':('proof','consistency, contiguity and link tests, extraction table recursions and BpSet proved; completeness (obtainConsistentPhrases) and segmentations are bounded (native, against exhaustive enumeration); the USE_OCH variant is not compiled and not covered'),
'P23':('proof','every function a partial translation is made and read with is proved, for both phrase model classes and the three hypothesis classes; the hypothesis class of the interpolated model (same base class, own getHypState) and the jump-counting equivalence classes are bounded (native)'),
'P15':('proof','both metadata classes: parsing of annotations, placing of JSON pairs, look-up, overlap and satisfaction of constraints are proved; tokenizeSrcSentence, completeness of the scan and the JSON library are bounded (native, independent parser)'),
'P24':('proof','edit script replay for words and translations, reuse of the previous prefix, first score row, correction of whole translations proved; validity of the edit script (calculateEditDistPrefixOps), the other score rows, the word-graph search and the restored last blank are bounded (native: incremental against from scratch)'),
}
NA={'P08':'the phrase table adapters only forward to the HAT-trie, std::map-of-map and LevelDB containers; their deciding code is C/C++ library code outside the verified subset (raw byte buffers, function pointers, files) and no contract on the adapters alone decides the property',
'P09':'probabilities come from a recursive back-off over vecx tries whose weights are loaded from files through the virtual model interface; the normalisation is a sum over the whole vocabulary and history of real arithmetic, outside what the generator can express'}

import json
P=[]
def p(id,title,statement,over,q,why,files,mech,state=None,obs=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],observe_at=obs or [],hook_needed=None)))
S='src/'
p('P01','Word alignment matrices obey set algebra',
 'For two word alignment matrices of equal dimensions, intersection, union, symmetric difference, sum, difference and complement produce exactly the cell-by-cell result of that operation, and transposing turns cell (i,j) into cell (j,i); combining matrices of different dimensions leaves the left one unchanged. An alignment vector written into an empty matrix is read back identical, and a matrix where some target word has several source words is reported as not representable.',
 ['inputs'],'all matrix dimensions and all cell contents','No test in the suite touches the alignment matrix; results must hold for every size and cell pattern.',
 [S+'nlp_common/WordAligMatrix.cc',S+'nlp_common/WordAligMatrix.h'],[('cell-wise loops over both dimensions','WordAligMatrix::operator&= ... operator-=, transpose, flip'),('vector conversion','WordAligMatrix::putAligVec / getAligVec')],
 [('I,J,matrix','dimensions and I x J cells','WordAligMatrix')],['getValue','getAligVec','operator=='])
p('P02','Symmetrised alignments lie between intersection and union',
 'Combining a source-to-target and a target-to-source alignment matrix of equal dimensions with either growing heuristic or with grow-diag-final gives a matrix that contains every link of their intersection and no link outside their union, and terminates. The two growing heuristics return a fixed point: no union link that is free on both sides, or that satisfies the neighbourhood condition of the heuristic, is left out; grow-diag-final leaves no union link whose source or target word is unaligned.',
 ['inputs'],'all pairs of equally sized alignment matrices','Iterates to a fixed point over arbitrary matrices; no test covers it and sampling cannot bound the number of sweeps or patterns.',
 [S+'nlp_common/WordAligMatrix.cc'],[('fixed point loops','WordAligMatrix::symmetr1, symmetr2, growDiagFinal'),('neighbourhood predicates','ijInNeighbourhood, ijHasHorizNeighbours, ijHasVertNeighbours, obtainAdjacentCells, iAligned, jAligned')],obs=['getValue'])
p('P03','Vocabulary encoding is a bijection',
 'After any sequence of additions of source and target words, every known word maps to one index, decoding that index returns the same word, two different words never share an index, and adding a known word again returns its existing index without growing the vocabulary. Unknown words encode to the unknown-word index, and source and target vocabularies do not interfere.',
 ['histories','inputs'],'all sequences of vocabulary additions and look-ups','Word/index consistency is an invariant over whole histories of insertions; tests use a handful of fixed words.',
 [S+'nlp_common/SingleWordVocab.cc',S+'nlp_common/SingleWordVocab.h'],[('paired maps','SingleWordVocab::addSrcSymbol / addTrgSymbol / stringToSrcWordIndex / wordIndexToSrcString')],
 [('stringToSrcWordIndexMap, srcWordIndexMapToString','the two directions of the mapping','SingleWordVocab')],['stringToSrcWordindex','wordIndexToSrcString','getSrcVocabSize'])
p('P04','Fixed-size bit sets behave as sets of positions',
 'Setting or resetting a bit changes exactly that bit, and setting or resetting everything changes all of them; and, or and xor agree position by position with the boolean operation. A right shift moves every bit by the given amount and fills with zeros, counting returns the number of set bits, conversion from and to unsigned integers keeps the low bits, increment adds one to the represented number, and equality and ordering agree with the contents.',
 ['inputs'],'all bit patterns, positions and shift amounts','Coverage keys of all hypotheses are built on this class; no test exercises it, and word-boundary positions are rare in samples.',
 [S+'nlp_common/Bitset.h'],[('word/bit index arithmetic','Bitset::set/reset/test, shifts and operators')],[('words','packed bits','Bitset')],['test','count','operator=='])
p('P05','Edit distance is minimal and its accounting is consistent',
 'The edit distance between two sequences is the minimum total cost over all ways of turning one into the other with the configured hit, insertion, substitution and deletion costs, for word sequences, strings and vectors of strings alike. The operation variant returns the same distance, and the hits, insertions, substitutions and deletions it reports add up to the two lengths and to that cost; the prefix variant equals the minimum over all prefixes of the reference.',
 ['inputs'],'all pairs of sequences and all non-negative cost settings','Dynamic programming must be optimal for every pair of sequences; the suite has no test for it.',
 [S+'error_correction/_editDist.h',S+'error_correction/EditDistForVec.h',S+'error_correction/EditDistForStr.cc',S+'error_correction/EditDistForVecString.cc'],
 [('dynamic programming matrix','calculateEditDist / calculateEditDistPref and WithOps variants'),('back-tracking','obtainOperations')],obs=['calculateEditDist','calculateEditDistWithOps','calculateEditDistPrefix'])
p('P06','Word graph scores equal the best path score',
 'For any word graph with at least one arc whose arcs go forward (in insertion order) and whose initial state is not final, the best score reported for each state is the initial score plus the maximum over all non-pruned paths from the initial state, the rest score is the maximum over all non-pruned paths to a final state (offset by the initial score), and the best path returned from a final state has exactly that score, starts in the initial state and consists of existing connected non-pruned arcs (exact arithmetic, scores above the minus-infinity of the code). Adding an arc keeps the state and arc indexes consistent with the arc list; the stored arcs and their order after a topological reordering describe the same graph. The n-best list contains distinct complete paths in non-increasing score order and holds the best ones; pruning by a threshold never removes an arc of a best path; excluded arcs are not followed.',
 ['inputs'],'all acyclic graphs, scores, pruning thresholds and list sizes','Maximality over all paths is universally quantified; the suite never builds a graph by hand.',
 [S+'error_correction/WordGraph.cc',S+'error_correction/WordGraph.h',S+'error_correction/NbSearchStack.cc'],
 [('forward/backward recursions','WordGraph::calcPrevScores, calcRestScores, bestPathFromFinalStateToIdx'),('A* n-best search','WordGraph::nbSearch'),('pruning','WordGraph::prune')],
 [('wordGraphArcs, wordGraphStates, arcsPruned','arc list, per-state arc index lists, pruning marks','WordGraph')],['bestPathFromFinalStateToIdx','obtainNbestList','prune'])
p('P07','Extracted phrase pairs are exactly the consistent ones',
 'From an aligned sentence pair, consistent-phrase extraction returns only source/target span pairs within the length limit that contain at least one alignment link and whose links stay inside the pair on both sides, every extracted phrase being the contiguous word sequence of its span. Every tight consistent pair within the length limit is extracted, except that a pair whose target span is the whole target sentence is extracted only with the whole source sentence; unaligned words next to the links of a target word are added in all combinations. A bilingual segmentation covers every source word once, left to right, with extracted pairs on disjoint target spans that leave no target word out; segmentation-based extraction weighs a pair by the proportion of segmentations that contain it.',
 ['inputs'],'all sentence pairs, alignment matrices and length limits','Consistency is a statement about all span pairs of all alignments; the tests never extract phrases.',
 [S+'phrase_models/PhraseExtractionTable.cc',S+'phrase_models/AlignmentExtractor.cc',S+'phrase_models/BpSet.cc'],
 [('extraction table','PhraseExtractionTable::extractConsistentPhrases'),('bisegment set','BpSet')],obs=['extractConsistentPhrases'])
p('P08','Phrase tables keep consistent counts and probabilities',
 'After any history of additions and count increments, every phrase table backend returns for a phrase pair the total count added, marginals equal to the totals of their pairs when every pair is added through the counting interface, and a conditional probability equal to joint over marginal, in [0,1]. Listing the entries of a phrase returns exactly the pairs stored for it, n-best lists are the best ones in order, and pairs never stored are reported as absent.',
 ['histories','inputs'],'all sequences of inserts/increments on all phrases, for each backend','The unit tests use fixed small histories per backend; key encodings and counts must not collide for any phrase.',
 [S+'phrase_models/StlPhraseTable.cc',S+'phrase_models/HatTriePhraseTable.cc',S+'phrase_models/LevelDbPhraseTable.cc',S+'phrase_models/BasePhraseTable.h'],
 [('source/target/pair maps','addTableEntry, incrCountsOfEntry, cSrcTrg, getEntriesForTarget, getNbestForTrg'),('key encoding','vectorToString / alfa')],obs=['getSrcTrgInfo','pTrgGivenSrc','getEntriesForTarget'])
p('P09','Language model probabilities are interpolated and bounded',
 'The probability of a word given a history is the weighted interpolation of the relative frequencies of all shorter histories down to a uniform-like base, so it always lies in [0,1], and with counts accumulated from sentences the observed words after a history never sum above one. Scoring a sentence word by word through the model state gives the same value as scoring each word with its explicit n-gram history.',
 ['inputs','histories'],'all count histories, weights, n-gram orders and sentences','Normalisation is a property of all vocabularies and histories; tests check a few table look-ups.',
 [S+'incr_models/_incrJelMerNgramLM.h',S+'incr_models/_incrNgramLM.h'],[('recursive interpolation','_incrJelMerNgramLM::pTrgGivenSrc / pTrgGivenSrcRec / getJelMerWeight'),('state update','getNgramLgProbGivenState, getStateForWordSeq')],obs=['getNgramProb','getLgProbEnd'])
p('P10','Incremental conditional counts are exact and isolated',
 'After any sequence of increments and additions to an incremental count table, each stored source total and source/target joint count is exactly what the history implies, and every pair never touched stays absent or zero. The conditional probability reported is joint over source total.',
 ['histories'],'all sequences of increments/additions over all keys','Isolation between all keys over all histories cannot be sampled.',
 [S+'incr_models/vecx_x_incr_cptable.h',S+'incr_models/IncrCondProbTable.h'],[('count tries and maps','addTableEntry / incrCountsOfEntry / pTrgGivenSrc')],obs=['cSrcTrg','getSrcInfo','getSrcTrgInfo'])
p('P11','Lexical and alignment tables return what was last set',
 'In the lexical, position-alignment and state-transition tables, reading a key after any history returns the last numerator or denominator set for exactly that key with its found flag true, every key never set reports not found, and writing one key never alters another; numerator and denominator writes in one call equal the two separate calls. Listing the target words for a source word returns exactly those with a stored numerator.',
 ['histories'],'all sequences of set operations over all keys','Unit tests set a few keys; aliasing between keys and resizing behaviour depend on the order of sets.',
 [S+'sw_models/IncrLexTable.cc',S+'sw_models/IncrIbm2AligTable.cc',S+'sw_models/IncrHmmAligTable.cc'],[('vectors of hash maps grown on demand','setLexNumer, setLexDenom, setAligNumer, setAligDenom and getters')],obs=['getLexNumer','getAligNumer'])
p('P12','Bounded posterior store keeps the latest values',
 'The store of expected alignment counts returns, for every sentence pair and position still held, the last value written, and reports values never written as absent. With a limited capacity a new sentence pair replaces the oldest held one and no other, and clearing one entry leaves all others untouched.',
 ['histories'],'all sequences of resets, writes and capacity settings','Wrap-around of the circular mapping happens only after histories longer than any test uses.',
 [S+'sw_models/anjiMatrix.cc',S+'sw_models/anjm1ip_anjiMatrix.cc'],[('circular index mapping','anjiMatrix::map_n_to_n_prime / init_nth_entry / set / get')],obs=['get','resetVecNumTgtPos'])
p('P13','Best word alignments are optimal',
 'For any lexical and alignment parameters, the best-alignment routine of the position-independent, position-dependent and hidden-Markov alignment models returns an alignment with one entry per target word in range, whose probability is the maximum over all alignments, and the reported log-probability is that of the returned alignment.',
 ['inputs'],'all sentence pairs and parameter tables','Optimality quantifies over exponentially many alignments for all parameters; not tested.',
 [S+'sw_models/IncrIbm1AligModel.cc',S+'sw_models/IncrIbm2AligModel.cc',S+'sw_models/_incrHmmAligModel.cc'],[('per-word maximisation','lexM1LpForBestAlig, lexAligM2LpForBestAlig'),('Viterbi recursion and back-trace','viterbiAlgorithmCached, bestAligGivenVMatrices')],obs=['obtainBestAlignment'])
p('P14','Decoder stacks are bounded priority queues with recombination',
 'A hypothesis stack returns its hypotheses best first, never exceeds its size bound after an insertion, and when full drops only hypotheses that score no better than those kept. A multi-stack with recombination returns the best hypothesis of all its sub-stacks (of the first sub-stack in key order under breadth-first), holds at most one hypothesis per state, the best-scoring one ever pushed for that state that survived the size bounds, reports as its size the number of non-empty sub-stacks, and is empty exactly when no hypothesis can be popped.',
 ['histories'],'all sequences of push, pop, top, removal and resizing','Orderings, ties and recombination depend on operation histories no test produces.',
 [S+'stack_dec/_smtStack.h',S+'stack_dec/SmtStack.h',S+'stack_dec/_smtMultiStack.h',S+'stack_dec/SmtMultiStackRec.h',S+'stack_dec/HypStateDict.h'],[('multiset/deque of hypotheses','_smtStack::push/pop/removeLast'),('stack map keyed by equivalence class','_smtMultiStack'),('state dictionary','SmtMultiStackRec::push, HypStateDict')],obs=['top','pop','size'])
p('P15','Translation constraints are parsed and enforced exactly',
 'Sentence metadata is split into the plain source sentence and the set of span constraints it encodes, with spans expressed in positions of the plain sentence; looking up a constraint returns the translation given for exactly that span. A translation of the sentence by segments, complete or not, satisfies the constraints if and only if, for every constraint whose first position it covers, the segment covering it is exactly the constrained span and its words are exactly the given translation.',
 ['inputs'],'all tag layouts, spans and translation pairs','Tests cover a few fixed annotated sentences; position bookkeeping must hold for all of them.',
 [S+'stack_dec/TranslationMetadata.h',S+'stack_dec/JsonTranslationMetadata.h'],[('tags, constraints and positions','TranslationMetadata::obtainTransConstraints, constraintFound, xmlTag; JsonTranslationMetadata::addTranslations'),('constraint checks','translationSatisfiesConstraints, srcPhrAffectedByConstraint')],obs=['getSrcSentVec','getConstrainedSrcPhrases','getTransForSrcPhr','translationSatisfiesConstraints'])
p('P16','Evaluation metrics are exact and bounded',
 'BLEU, chrF, word error and matching scores of a system output against a reference depend only on clipped n-gram matches, lengths and minimal edit cost as defined: clipped matches never exceed system or reference n-gram counts, sufficient statistics add up over sentences, BLEU, chrF and matching scores lie in [0,1] while the score based on word errors never exceeds 1, and an output equal to a non-empty reference gets score 1.',
 ['inputs'],'all pairs of sentences and corpora','Tests check two chrF strings; bounds must hold for empty, short and repeated-word sentences.',
 [S+'stack_dec/bleu.cc',S+'stack_dec/chrf.cc',S+'stack_dec/MiraBleu.cc',S+'stack_dec/MiraWer.cc',S+'stack_dec/MiraGtm.cc',S+'stack_dec/MiraChrF.cc'],[('clipped n-gram counting','prec_n, calculate_chrf'),('sufficient statistics','statsForSentence / scoreFromStats')],obs=['calc_bleu','scoreFromStats'])
p('P17','Weight updating picks true extremes and keeps its shape',
 'When tuning weights, the selected model-best, hope and fear translations maximise respectively the model score, the sum and the difference of model score and quality over the given candidates. Sampling an order of sentences yields each sentence exactly once, weighted feature scores are exact dot products, and updated weights always have as many entries as the current ones.',
 ['inputs'],'all candidate lists, scores, qualities and weights','The two unit tests run one fixed list; arg-max and permutation claims quantify over all lists.',
 [S+'stack_dec/KbMiraLlWu.cc'],[('arg-max scans','KbMiraLlWu::MaxTranslation, HopeFear'),('sampling','sampleWoReplacement')],obs=['update','updateClosedCorpus'])
p('P18','N-best translation tables are ordered and pruned correctly',
 'A table of scored translations lists its elements from best to worst, keeps all inserted elements, and pruning to a number or to a score threshold keeps exactly the best ones satisfying the limit, in order. The best element returned is the first of that order.',
 ['histories'],'all insertion orders, ties, thresholds and limits','Ordering under ties and threshold edges depends on arbitrary inputs; no direct tests.',
 [S+'nlp_common/NbestTableNode.h',S+'nlp_common/NbestTransTable.h'],[('sorted multimap','NbestTableNode::insert, pruneGivenThreshold, stableSort')],obs=['begin','size','pruneGivenThreshold'])
p('P19','Log-space arithmetic matches real arithmetic',
 'Adding and subtracting in log space equals the logarithm of the sum or difference of the arguments, is symmetric for addition, and treats the smallest log value as zero probability. Converting counts between log and linear scale and adding them agrees with ordinary addition, and combinatorial helpers return the exact number of arrangements in log scale.',
 ['inputs'],'all log values including extreme ones','Identities over the reals with guard branches for extreme magnitudes; not tested.',
 [S+'nlp_common/MathFuncs.cc',S+'nlp_common/LogCount.h'],[('guarded log-add','MathFuncs::lns_sumlog, lns_sublog'),('log count','LogCount operators')],obs=['lns_sumlog','lns_sublog'])
p('P20','Tries and ordered vectors are maps',
 'After any sequence of insertions, look-ups, replacements, copies and clears, a trie or ordered vector returns for each key exactly the last value stored under it, and iterates over each stored key once (tries also over the prefixes of stored keys). A key that was never stored, and for tries is no prefix of a stored key, is reported as absent. Ordered vectors iterate in key order.',
 ['histories'],'all sequences of operations over all keys (including prefixes of one another)','Prefix-sharing keys and binary-search boundaries need arbitrary histories.',
 [S+'nlp_common/TrieVecs.h',S+'nlp_common/Trie.h',S+'nlp_common/BidTrie.h',S+'nlp_common/OrderedVector.h'],[('child search by ordered vectors','TrieVecs::insert/find'),('binary search','OrderedVector::insert/findPtr')],obs=['find','insert','iteration'])
p('P21','Sentence corpora are retrieved by position without loss',
 'A sentence store returns, for each position in range, exactly the source sentence, target sentence and count it was given at that position, whether read from files or added online, and appended pairs get the next consecutive positions. Operations on out-of-range positions report failure and leave the store unchanged.',
 ['histories','inputs'],'all interleavings of additions and positional reads','Sequential file reading with random positional access depends on the access history.',
 [S+'sw_models/LightSentenceHandler.cc'],[('file position plus in-memory tail','LightSentenceHandler::getSentencePair / addSentPair / nthSentPair')],obs=['getSentPair','getCount'])
p('P22','String helpers split and compare exactly',
 'Splitting a line yields exactly its maximal runs of non-blank characters in order, and joining words with single spaces (or without) concatenates them exactly, so that splitting inverts joining. String prefix tests agree with the literal definition, and a word vector is a prefix of another exactly when all its words but the last equal the corresponding words and the last one is a string prefix of its counterpart. The last word of a string is its last maximal run of non-space characters, and adding or removing a final blank changes nothing else.',
 ['inputs'],'all strings','Boundary strings (empty, leading/trailing spaces, equal strings) are what user prefixes hit; no tests.',
 [S+'nlp_common/StrProcUtils.cc'],[('string utilities','StrProcUtils::stringToStringVector, isPrefix, isPrefixStrVec, getLastWord, stringVectorToString')],obs=['isPrefix','stringToStringVector'])
p('P23','Partial translations track coverage exactly',
 'A partial translation derived from any sequence of valid phrase extensions marks a source position as covered exactly when some applied source segment contains it, is complete exactly when all positions are covered, and maps each source segment to the target span produced for it. Its coverage key and number of uncovered words agree with that set.',
 ['histories'],'all sequences of non-overlapping segment extensions','Search correctness rests on coverage for every extension order; no tests touch hypotheses.',
 [S+'stack_dec/_phraseHypothesisRec.h',S+'stack_dec/_phraseHypothesis.h',S+'stack_dec/PhrHypData.h'],[('bit-set key and cut vectors','_phraseHypothesisRec::getKey, isAligned, areAligned, getPhraseAlign')],obs=['isAligned','areAligned','getKey'])
p('P24','Corrections respect the user prefix',
 'Correcting a system translation with a validated user prefix always yields a translation that starts with that prefix, keeps the remainder of the system translation aligned after it, and changes nothing when the translation already starts with the prefix. Incremental evaluation of a prefix, letter by letter or at once, yields the same scores as evaluating the whole prefix from scratch.',
 ['inputs','histories'],'all translations, prefixes and ways of extending the prefix','Prefix contract is for every user input and history of key strokes; no tests.',
 [S+'error_correction/_editDistBasedEcm.cc',S+'error_correction/NonPbEcModelForNbUcat.cc',S+'error_correction/PfsmEcm.cc'],[('edit script replay','_editDistBasedEcm::correctStrGivenPrefOps, NonPbEcModelForNbUcat::correctStrGivenPref'),('incremental score columns','PfsmEcmForWg, EditDistForVecString::incrEditDistPrefixFirstRow, WgProcessorForAnlp::getValidProcPrefixVec')],obs=['correctStrGivenPref','correct'])
p('P25','Segment-length models are probability distributions',
 'Phrase segment-length and segment-count tables return non-negative probabilities that never exceed one for every length, cut position and sentence length, in and out of the trained range, and the uniform, Poisson and geometric alternatives, each over the length, length difference or jump distance it is defined on, sum to at most one.',
 ['inputs'],'all sentence lengths, segment counts and positions','Out-of-range sentence lengths and boundary indices are never sampled.',
 [S+'phrase_models/SegLenTable.cc',S+'phrase_models/TrgSegmLenTable.cc',S+'phrase_models/SrcSegmLenTable.cc',S+'phrase_models/TrgCutsTable.cc'],[('bounded tables with fallbacks','SegLenTable::pk_tlen, TrgSegmLenTable::trgSegmLenProb, SrcSegmLenTable, TrgCutsTable')],obs=['pk_tlen','trgSegmLenProb'])
import os
open(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))+'/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P),[x['id'] for x in P if x['statement'].count('. ')+1>3 or len(x['title'])>80])

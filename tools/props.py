#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand after editing)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []; CH = []; NA = []
CB = 'bounded model checking: clang IR of the real headers translated to C, CBMC/SAT, counterexamples replayed natively'
SX = 'symbolic execution of the clang IR of the real headers (own executor), z3 decides every branch and assertion, counterexamples replayed natively'
BO = CB + '; and ' + SX
def prop(id, title, statement, over, qtext, why, files, mech, tech, note, state=None, observe=None):
    a = dict(files=['src/' + f for f in files], mechanism=[dict(name=n, where='src/' + w) for n, w in mech])
    if state: a['state'] = [dict(name=n, meaning=m, where='src/' + w) for n, m, w in state]
    if observe: a['observe_at'] = observe
    a['hook_needed'] = None
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=a))
    if tech: CH.append(dict(property=id, quick_cmd='python3 check.py %s --tier quick' % id, thorough_cmd='python3 check.py %s --tier thorough' % id, evidence_file='evidence/%s.json' % id, technique=tech, level='model_checking', level_note=note))
RE = 'double arithmetic is decided over the reals (no rounding), with the tolerances of the harness; '
TB = 'trusts clang, the IR encoding (validated on every run against the compiled real code), and the solver'

prop('B01', 'A Bloom filter has no false negatives',
 'Every element added to a Bloom filter since it was built or last reset is reported present, whatever the hash functions, the number of bits and the other elements. Adding and looking up leave the caller\'s element unchanged and never touch memory outside the filter.',
 ['inputs', 'histories', 'configurations'], 'every history of additions, lookups and resets, every deterministic hash function with any int result, several filter sizes (byte multiples and not) and numbers of hash functions',
 'Tests insert a few fixed elements with one or two fixed hash functions in one filter size.', ['bloom_filter.hpp'],
 [('add / set of a bit', 'bloom_filter.hpp BloomFilter::add'), ('lookup', 'bloom_filter.hpp BloomFilter::lookup'), ('reset', 'bloom_filter.hpp BloomFilter::clear')], CB,
 'exhaustive within the stated sizes and history lengths; ' + TB)
prop('B02', 'Bloom lookup is exact on bit positions, and clear empties the filter',
 'A lookup is positive exactly when every bit position of the element (hash value modulo the number of bits) belongs to an element added since the last reset: there are no positives beyond position collisions. A new or reset filter contains nothing.',
 ['inputs', 'histories', 'configurations'], 'as B01', 'A false positive caused by wrong bit addressing only shows for colliding or neighbouring positions the tests do not build.', ['bloom_filter.hpp'],
 [('bit addressing', 'bloom_filter.hpp BloomFilter::add, lookup'), ('reset', 'bloom_filter.hpp BloomFilter::clear')], CB, 'exhaustive within the stated sizes and history lengths; ' + TB)
prop('C01', 'A Cuckoo filter accounts for every copy it accepted',
 'An element is found as long as the filter holds accepted copies that were not removed, removing an element removes one copy and leaves all others found, and a rejected addition leaves the contents as they were. This holds through evictions, for every fingerprint function, hash function and sequence of random draws.',
 ['inputs', 'histories', 'configurations'], 'every history of additions, removals, lookups and clears of bounded length over a few elements, arbitrary fingerprint and hash functions, arbitrary draws in [0,1[',
 'Tests add a few elements to filters far from full; eviction chains and failed insertions depend on hash and draw combinations they never reach.', ['cuckoo_filter.hpp'],
 [('insertion with eviction', 'cuckoo_filter.hpp CuckooFilter::add'), ('removal', 'cuckoo_filter.hpp CuckooFilter::remove'), ('entry packing', 'cuckoo_filter.hpp entry get/set')], BO,
 'bounds: tables up to 4 buckets of up to 2 entries, 2-6 operations; one obligation family bounds the number of draws per insertion, another runs all 500 evictions with draws of period two; ' + TB)
prop('C02', 'Cuckoo lookup is exact on fingerprints, and room is used',
 'A lookup is positive exactly when an indistinguishable element (same fingerprint, same pair of buckets) is stored; an addition is accepted without evicting anything whenever one of its two buckets has a free entry; the filter never holds more elements than it has entries.',
 ['inputs', 'histories', 'configurations'], 'as C01', 'False positives and refused additions depend on hash collisions that fixed test data avoids.', ['cuckoo_filter.hpp'],
 [('lookup', 'cuckoo_filter.hpp CuckooFilter::lookup'), ('insertion', 'cuckoo_filter.hpp CuckooFilter::add')], BO, 'as C01')
prop('L01', 'LTC reconstructs every point within epsilon',
 'Interpolating linearly between the transmitted points gives, at the timestamp of each point received, a value within epsilon of the point. Transmitted timestamps are timestamps of the input, increase, and each transmitted point precedes the point that triggered it.',
 ['inputs', 'histories'], 'every stream of a bounded number of points, any values in the stated range, gaps from the stated sets, several element and timestamp types, epsilons and time units',
 'Tests replay two recorded series; the epsilon guarantee must hold for all shapes of stream, gaps and element types.', ['ltc.hpp'],
 [('envelope of lines', 'ltc.hpp LTC::add'), ('emitted point', 'ltc.hpp LTC::get_value_to_transmit')], SX,
 'rounding of integer element types is allowed one unit of slack; ' + RE + TB)
prop('L02', 'LTC transmits only when it has to',
 'A point is transmitted as soon as, and only when, no line starting at the last transmitted point stays within epsilon of every point since. The first transmitted point is the first point of the stream, and reading the transmitted point changes nothing.',
 ['inputs', 'histories'], 'as L01', 'Compression quality is only compared with stored outputs for two series.', ['ltc.hpp'],
 [('decision to transmit', 'ltc.hpp LTC::add')], SX, 'as L01')
prop('R01', 'Reservoir sampling keeps its reservoir well formed',
 'Reservoirs fill their slots in order, every accepted element overwrites exactly one valid slot, reported by the addition, and nothing else; the count reported is the number of elements seen (plain reservoir) or stored (exponential reservoir), and the reservoir only ever contains elements of the stream. This holds for every sequence of random draws in [0,1], including the bounds.',
 ['inputs', 'histories'], 'every history of additions up to the bound, every sequence of draws in [0,1]', 'Tests draw from one generator; the draws at the ends of the interval have probability near zero.', ['reservoir_sampling.hpp'],
 [('slot choice', 'reservoir_sampling.hpp ReservoirSampling::add'), ('exponential reservoir', 'reservoir_sampling.hpp ReservoirSamplingWithExponentialRate::add')], CB, 'reservoirs up to 5, up to 7 additions; ' + TB)
prop('R02', 'Reservoir sampling is uniform',
 'The n-th element enters a reservoir of size k with probability exactly k/n and replaces each slot with equal probability, so that the sample is uniform.',
 ['inputs', 'histories'], 'every history, every draw; the set of accepting draws is measured symbolically', 'A biased acceptance or slot choice cannot be told from noise by a test.', ['reservoir_sampling.hpp'],
 [('acceptance', 'reservoir_sampling.hpp ReservoirSampling::add')], BO, 'as R01')
prop('R03', 'The exponential reservoir accepts everything and replaces at the fill rate',
 'Every element enters the exponentially biased reservoir: with probability stored/size it replaces a stored element chosen uniformly, otherwise it takes the next free slot.',
 ['inputs', 'histories'], 'as R01', 'Same as R02.', ['reservoir_sampling.hpp'], [('replacement', 'reservoir_sampling.hpp ReservoirSamplingWithExponentialRate::add')], BO, 'as R01')
prop('H01', 'Chained reservoir sampling replaces expired elements by their successors',
 'When elements up to a timestamp expire, each slot whose element expired continues with the first successor in its chain that is still live, slots with live elements are unchanged, and no live element is lost or duplicated. The timestamp given is included.',
 ['inputs', 'histories'], 'every history of additions and expirations of any timestamp, up to the bound, with every sequence of draws', 'Chains of more than one successor and expirations in the middle of a chain need histories the tests do not run.', ['chained_reservoir.hpp'],
 [('chains', 'chained_reservoir.hpp ChainedReservoirSampling::add'), ('expiration', 'chained_reservoir.hpp ChainedReservoirSampling::obsolete')], SX, 'reservoirs up to 3, up to 9 operations; chains longer than 5000 are outside the claim; ' + TB)
prop('H03', 'Chained reservoir sampling is uniform while nothing expires',
 'The first k elements are kept; the n-th element is accepted with probability k/n and replaces each slot with equal probability.', ['inputs', 'histories'], 'every sequence of draws', 'Same as R02.', ['chained_reservoir.hpp'],
 [('acceptance', 'chained_reservoir.hpp ChainedReservoirSampling::add')], SX, 'as H01')
prop('U01', 'Picking from weights follows the weights',
 'Turning an array of weights into a distribution gives its cumulative shares, ending at one; picking from the distribution returns each index with its share as probability, never an index of weight zero and never one out of range.',
 ['inputs'], 'every small array, every draw in [0,1[', 'Tests only look at one array and average many draws.', ['utils.hpp'],
 [('cumulative shares', 'utils.hpp Utils::turn_array_into_probability'), ('pick', 'utils.hpp Utils::pick_from_distribution')], BO, 'arrays of up to 4; ' + RE + TB)
prop('U02', 'The numeric helpers compute what they say',
 'Minimum, maximum, absolute value, rounding, index of the maximum and integer division are exact; shuffling gives a permutation, each one equally likely; an exponential variate is -log(1-u)/rate and never negative.',
 ['inputs'], 'all ints and doubles for the scalar helpers, arrays of up to 5, every draw', 'Tests sample a few values.', ['utils.hpp'], [('helpers', 'utils.hpp Utils')], BO, 'log is an arbitrary function known only by its sign and monotonicity; ' + TB)
prop('E01', 'Error metrics report the documented ratio',
 'After any history of predictions, resets and copies the error score is the share of wrong (or right) predictions, scaled by the tree size as documented, and stays between 0 and 1; the reservoir metrics keep and replace entries with the documented probabilities.',
 ['inputs', 'histories'], 'every history of up to 4 operations, any labels, any tree size up to 64', 'The metrics are only exercised inside tree tests.', ['metrics.hpp'], [('score', 'metrics.hpp ErrorMetrics'), ('replacement', 'metrics.hpp ReservoirSamplingMetrics')], SX, 'the score before any update is undefined and not constrained; ' + RE + TB)
prop('E02', 'Kappa is Cohen\'s kappa of the predictions seen',
 'The kappa score equals (observed agreement - expected agreement)/(1 - expected agreement) over the predictions since the last reset, lies between -1 and 1, is 1 for perfect agreement and is always a number.',
 ['inputs', 'histories'], 'every history of up to 4 operations with 2 or 3 labels', 'Only exercised inside tree tests.', ['metrics.hpp'], [('score', 'metrics.hpp KappaMetrics')], SX, RE + TB)
prop('N01', 'Naive Bayes learns the moments of each label',
 'For every training history the model uses, per label and feature, the weighted mean and unbiased weighted variance of the values seen for the label and the label frequencies as priors; training never changes the caller\'s data.',
 ['inputs', 'histories'], 'every training set of up to 4 points, weights 1 or 3', 'Tests train one data set and check accuracy only.', ['naive_bayes.hpp'], [('online moments', 'naive_bayes.hpp NaiveBayes::train')], SX, 'log, sqrt and exp are abstract functions applied to the right arguments; ' + RE + TB)
prop('N02', 'Naive Bayes predicts the most likely label',
 'The score of a label is its log prior plus the log normal density of each feature, the prediction is the first label of highest score, and predicting or asking for scores has no effect on later predictions and writes nothing outside the scores.',
 ['inputs', 'histories'], 'as N01, every query', 'Same as N01.', ['naive_bayes.hpp'], [('scores', 'naive_bayes.hpp NaiveBayes::predict')], SX, 'as N01')
prop('M01', 'MCNN predicts the label of the nearest cluster',
 'A prediction is the label of the micro-cluster whose centroid is closest to the query (at any distance), an untrained model predicts the empty class, and predicting changes nothing.',
 ['inputs', 'histories'], 'every training set of a few points with real, integer or grid features, every query', 'Tests use one data set near the origin and check accuracy.', ['mc_nn.hpp'], [('nearest cluster', 'mc_nn.hpp MCNN::predict, nearest_clusters'), ('absorption', 'mc_nn.hpp MCNN::train')], SX, RE + TB)
prop('M02', 'MCNN manages its clusters within bounds',
 'The model never holds more clusters than allowed, the reported number is the number of active clusters, training fails exactly when a cluster is needed and cannot be made under the cleaning method, and splitting a cluster keeps its points and label around its centroid.',
 ['histories', 'configurations'], 'histories of up to 7 points that force splits, evictions and cleaning, last points symbolic, the three cleaning methods', 'Splitting with a full model, negative features and each cleaning method are not reached by the tests.', ['mc_nn.hpp'],
 [('split', 'mc_nn.hpp MCNN::split'), ('eviction and cleaning', 'mc_nn.hpp MCNN::train, clean')], SX, 'feature values are chosen from small sets; ' + RE + TB)
prop('P01', 'The perceptron computes the network function',
 'For every weights and input, feeding forward writes exactly the outputs of the fully connected network (activation of the weighted sum plus bias, layer by layer), leaving input and weights unchanged; setting weights by network, layer or neuron stores them at their place; initial weights come from the random function.',
 ['inputs', 'configurations'], 'any weights and inputs, several network shapes', 'Tests check one network with fixed weights.', ['perceptron.hpp'], [('feed forward', 'perceptron.hpp MultiLayerPerceptron::feed_forward'), ('weights layout', 'perceptron.hpp set_weights')], SX, 'network shapes up to 4 layers of up to 3 neurons; activation functions are polynomials or a rectifier; ' + RE + TB)
prop('P02', 'Backpropagation is gradient descent on the squared error',
 'After feeding an input, backpropagating an expected output moves every weight and bias by minus the learning rate times the gradient of the squared error, using the weights before the step, and returns the mean squared error of the output.',
 ['inputs', 'configurations'], 'any weights, inputs and expected outputs, several network shapes, up to two steps', 'Tests only check that the error falls on one problem.', ['perceptron.hpp'], [('backpropagation', 'perceptron.hpp MultiLayerPerceptron::backpropagate')], SX, 'as P01')

exec(open(os.path.join(ROOT, 'tools', 'props_trees.py')).read()) if os.path.exists(os.path.join(ROOT, 'tools', 'props_trees.py')) else None
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
m = dict(version=1, setup_cmd='python3 -c "import sys; sys.path.insert(0, \'lib\'); import ir2c, obligations; print(len(obligations.OBLIGATIONS), \'obligations\')"', checks=CH, not_applicable=NA,
         notes='No hooks in /repo. Every check compiles the headers of /repo/src from the working tree into LLVM IR with clang, encodes the IR for CBMC or for the symbolic executor in lib/symx.py, and replays counterexamples against the natively compiled headers. See DESIGN.md.')
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties,', len(CH), 'checks')

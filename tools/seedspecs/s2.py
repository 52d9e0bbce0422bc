SEEDS = {}
def seed(id, prop, file, edits, needs, breaks, demo, **k): SEEDS[id] = dict(prop=prop, file=file, edits=edits, needs=needs, breaks=breaks, demo=demo, **k)
seed('cuckoo_kick_hash', 'C01', 'cuckoo_filter.hpp', [('				fp = tmp;\n				h1 = h;\n				h2 = h1 ^ funct::hash(fp);', '				h1 = h;\n				h2 = h1 ^ funct::hash(fp);\n				fp = tmp;')],
 'an eviction of a fingerprint whose alternate bucket differs from the one of the evicting fingerprint', 'The evicted fingerprint is moved to a bucket computed from another fingerprint and is not found any more.', r'''
#include <cassert>
#include <cmath>
using namespace std;
#define BYTE_SIZE 8
#include "cuckoo_filter.hpp"
struct F{ static unsigned char fingerprint(int const* e){ return 1 + *e / 4; } static unsigned int hash(int const* e){ return *e % 4; } static unsigned int hash(unsigned char fp){ return fp & 3; } };
static unsigned seq, at;
double rnd(){ return (seq >> (at++ % 8)) & 1 ? 0.75 : 0.25; }
int main(){
 for(int a = 0; a < 12; ++a) for(int b = 0; b < 12; ++b) for(int d = 0; d < 12; ++d) for(seq = 0; seq < 8; ++seq){
  at = 0; CuckooFilter<int, 4, 1, 3, F, rnd> c; int e[] = {a, b, d}; bool in[3];
  for(int i = 0; i < 3; ++i) in[i] = c.add(e[i]);
  for(int i = 0; i < 3; ++i) if(in[i] && !c.lookup(e[i])) return 1;
 }
 return 0; }
''')
seed('reservoir_threshold', 'R02', 'reservoir_sampling.hpp', [('static_cast<double>(sample_size) / static_cast<double>(counter+1);', 'static_cast<double>(sample_size) / static_cast<double>(counter > sample_size ? counter+1 : counter);')],
 'a draw above k/(k+1) for the first element after the reservoir is full', 'The first element after the reservoir is full is always accepted.', r'''
#include "reservoir_sampling.hpp"
static double r[2]; static int i;
struct F{ static double random(){ return r[i++]; } static int floor(double d){ return (int)d; } };
int main(){ ReservoirSampling<int, 2, F> s; s.add(1); s.add(2); r[0] = 0.7; r[1] = 0.1; return s.add(3) == -1 ? 0 : 1; }
''')
seed('chained_next_kept', 'H01', 'chained_reservoir.hpp', [('should be interesting','x')] if False else [('but it might be interesting to think about it\n				next[index] = counter + 1 + round(funct::random() * (sample_size-1));', 'but it might be interesting to think about it\n				if(next[index] <= counter)\n					next[index] = counter + 1 + round(funct::random() * (sample_size-1));')],
 'an element replaced before its successor arrived, then an expiration', 'The replacing element inherits the successor of the element it replaced instead of drawing its own.', r'''
#include <cassert>
#include <cstdlib>
#include <cstddef>
#include "chained_reservoir.hpp"
static double seq[] = {1, 1, 1, /*3: accept, slot, own successor*/ 0, 0.9, 0, /*slot 0 gets 3*/ 1, /*4: refuse*/ 1, /*slots 1 and 2 get 4*/ 1, 1, 1, 1, 1, 1, 1, 1};
static int i;
static double cells[20][8]; static int nc;
struct F{ static double random(){ return seq[i++]; } static void* malloc(size_t n){ return cells[nc++]; } };
int main(){
 ChainedReservoirSampling<int, 3, F> s;
 for(int k = 0; k < 5; ++k) s.add(k, 10 + k);
 s.obsolete(13);
 return s[2] == 4 ? 0 : 1; }
''')
seed('mlp_order', 'P02', 'perceptron.hpp', [('						neuron_error += neuron_output[neuron_next_layer] * weights[weight_next_layer];\n', '						neuron_error += neuron_output[neuron_next_layer] * (weights[weight_next_layer] - (layer_count > 3 ? learning_rate * current_neuron_output * neuron_output[neuron_next_layer] : 0));\n')],
 'a network with two hidden layers or more', 'The error is propagated through the weights after their update, which is not the gradient.', r'''
#include "perceptron.hpp"
struct F{ static double random(){ return 0; } static double activation(double x){ return x; } static double derivative(double x){ return 1; } };
int main(){ int sz[] = {1, 1, 1, 1}; MultiLayerPerceptron<4, 512, F> n(sz, 0.5); double w[] = {1, 0, 1, 0, 1, 0}; n.set_weights(w); double in = 1, out, ex = 0; n.feed_forward(&in, &out); n.backpropagate(&ex);
 // out = 1, every delta is 1: each weight becomes 0.5
 double e = n.get_weights()[0] - 0.5; return e > -1e-9 && e < 1e-9 ? 0 : 1; }
''')
seed('pick_share', 'U01', 'utils.hpp', [('		values[0] = (values[0]/sum);', '		if(sum > 1)\n			values[0] = (values[0]/sum);')],
 'weights whose sum is below one', 'The first share is not normalised when the weights sum to less than one.', r'''
#include "utils.hpp"
int main(){ double v[] = {0.25, 0.25}; Utils::turn_array_into_probability(v, 2); return v[0] == 0.5 && v[1] == 1 ? 0 : 1; }
''')
seed('round_negative', 'U02', 'utils.hpp', [('			return static_cast<int>(v-0.5);', '			return static_cast<int>(v-0.49);')],
 'a negative value of fraction 0.5 to 0.51', 'Values such as -1.505 are rounded toward zero.', r'''
#include "utils.hpp"
int main(){ return Utils::round(-1.505) == -2 && Utils::round(-1.2) == -1 ? 0 : 1; }
''')
seed('mcnn_square', 'M02', 'mc_nn.hpp', [('				features_square_sum[i] += features[i]*features[i];\n			}\n		}\n		/**\n		 * Compute the perf', '				features_square_sum[i] += features[i]*features[0];\n			}\n		}\n		/**\n		 * Compute the perf')],
 'two features, a cluster that absorbed points and then splits along the second feature', 'The variance of every feature but the first is wrong, so the cluster is split at the wrong places.', r'''
#include "mc_nn.hpp"
int main(){ MCNN<double, 2, 10> m(1); double p[][2] = {{0, 0}, {0, 8}, {1000, 4}, {400, 4}, {150, 4}}; int l[] = {0, 0, 1, 1, 1};
 for(int i = 0; i < 5; ++i) m.train(p[i], l[i]);
 // clusters: label 0 at (0,0) and (0,8), label 1 at x = 150 and more
 double a[2] = {74.95, 4}, b[2] = {74.8, 4}; return m.predict(a) == 1 && m.predict(b) == 0 ? 0 : 1; }
''')
seed('error_ratio', 'E01', 'metrics.hpp', [('return (static_cast<double>(count - error_count) / static_cast<double>(count)) / static_cast<double>(tree_size);', 'return (static_cast<double>(count - error_count) / static_cast<double>(count)) / (tree_size + 1.0);') if False else ('	void increase_error(int const c=1){\n		count += c;\n		error_count += c;', '	void increase_error(int const c=1){\n		count += 1;\n		error_count += c;')],
 'an increase of the errors by more than one', 'More errors than predictions are counted, so that the score leaves [0,1].', r'''
#include "metrics.hpp"
int main(){ ErrorMetrics<> m; m.update(0, 0); m.increase_error(3); return m.score() == 0.75 ? 0 : 1; }
''')
seed('reservoir_index_first', 'R01', 'reservoir_sampling.hpp', [('		if(idx >= 0){\n			this->sample[idx] = e;\n		}\n		return idx;\n	}\n	/**\n	 * Sample one new element into the sample. This new element will have to be added by the user.\n	 * Return the index of the new element. -1 otherwise.\n	 */\n	int sample_index(void){\n		int idx = -1;', '		if(idx > 0 || counter <= sample_size){\n			this->sample[idx] = e;\n		}\n		return idx;\n	}\n	/**\n	 * Sample one new element into the sample. This new element will have to be added by the user.\n	 * Return the index of the new element. -1 otherwise.\n	 */\n	int sample_index(void){\n		int idx = -1;')],
 'an element accepted into the first slot after the reservoir is full', 'The slot reported by the addition does not hold the element.', r'''
#include "reservoir_sampling.hpp"
static double r[2] = {0.1, 0.1}; static int i;
struct F{ static double random(){ return r[i++]; } static int floor(double d){ return (int)d; } };
int main(){ ReservoirSampling<int, 2, F> s; s.add(1); s.add(2); int k = s.add(3); return k == 0 && s[0] == 3 ? 0 : 1; }
''')

seed('reservoir_same_draw', 'R02', 'reservoir_sampling.hpp', [('				idx = func::floor(func::random() * static_cast<double>(sample_size));', '				idx = func::floor(rnd * static_cast<double>(sample_size));')],
 'acceptances long after the reservoir is full: the accepting draw is small, so the slot is always among the first ones', 'The slot is chosen with the draw that accepted the element: late elements only ever replace the first slots.', r'''
#include "reservoir_sampling.hpp"
static double r[16]; static int i;
struct F{ static double random(){ double x = r[i % 2]; i++; return x; } static int floor(double d){ return (int)d; } };
int main(){ ReservoirSampling<int, 4, F> s; for(int k = 0; k < 7; ++k){ r[0] = 0.99; r[1] = 0.99; s.add(k); } i = 0; r[0] = 0.4; r[1] = 0.9; return s.add(9) == 3 ? 0 : 1; }
''')
seed('exp_slot_skipped', 'R01', 'reservoir_sampling.hpp', [('		int index;\n', '		int index = counter;\n'), ('			index = counter;\n			counter += 1;\n', '			counter += 1;\n			if(filling_ratio == 0)\n				index = 0;\n			else\n				index = func::floor(remove_element * static_cast<double>(counter));\n')],
 'an addition to a partly filled reservoir whose draw is well below one', 'A new element overwrites a stored one although it should take the next free slot, which stays empty.', r'''
#include "reservoir_sampling.hpp"
static double r[] = {0.5, 0.3, 0.7, 0.9}; static int i;
struct F{ static double random(){ return r[i++]; } static int floor(double d){ return (int)d; } };
int main(){ ExponentialReservoirSampling<int, 4, F> s; s.add(7); int k = s.add(8); int j = s.add(9); return k == 1 && j == 2 ? 0 : 1; }
''')

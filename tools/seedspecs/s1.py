SEEDS = {}
def seed(id, prop, file, edits, needs, breaks, demo, **k): SEEDS[id] = dict(prop=prop, file=file, edits=edits, needs=needs, breaks=breaks, demo=demo, **k)
seed('bloom_toggle', 'B01', 'bloom_filter.hpp', [('bits[real_index] = bits[real_index] | (1 << mod);', 'bits[real_index] = bits[real_index] ^ (1 << mod);')],
 'two added elements whose hash functions share a bit position (or one element added twice)', 'A set bit is cleared when it is set again, so an added element is reported absent.', r'''
#include "bloom_filter.hpp"
unsigned int h(int* e){ return *e % 8; }
unsigned int g(int* e){ return (*e / 8) % 8; }
int main(){ BloomFilter<int, 8, 2>::hash_function_t *z = 0; unsigned int (*hs[2])(int*) = {h, g};
 BloomFilter<int, 8, 2> b(hs); b.add(1*8+2); b.add(3*8+1); return b.lookup(1*8+2) && b.lookup(3*8+1) ? 0 : 1; }
'''.replace('BloomFilter<int, 8, 2>::hash_function_t *z = 0; ', ''))
seed('bloom_clear_last', 'B02', 'bloom_filter.hpp', [('	void clear(void){\n		for(int i = 0; i < real_size; ++i)', '	void clear(void){\n		for(int i = 0; i + 1 < real_size; ++i)')],
 'an element whose position is the last one, then a reset', 'The last position survives a reset, so an element is found in an empty filter.', r'''
#include "bloom_filter.hpp"
unsigned int h(int* e){ return *e % 8; }
int main(){ unsigned int (*hs[1])(int*) = {h};
 static BloomFilter<int, 8, 1> b(hs); b.add(7); b.clear(); return b.lookup(7) ? 1 : 0; }
''')
seed('cuckoo_kick_hash', 'C01', 'cuckoo_filter.hpp', [('				fp = tmp;\n				h1 = h;\n				h2 = h1 ^ funct::hash(fp);', '				h1 = h;\n				h2 = h1 ^ funct::hash(fp);\n				fp = tmp;')],
 'an eviction of a fingerprint whose alternate bucket differs from the one of the evicting fingerprint', 'The evicted fingerprint is moved to a bucket computed from another fingerprint and is not found any more.', r'''
#include <cassert>
#include <cmath>
using namespace std;
#define BYTE_SIZE 8
#include "cuckoo_filter.hpp"
struct F{ static unsigned char fingerprint(int const* e){ return (*e / 4) & 7; } static unsigned int hash(int const* e){ return *e % 4; } static unsigned int hash(unsigned char fp){ return fp % 4; } };
double rnd(){ return 0.75; }
int main(){ CuckooFilter<int, 4, 1, 3, F, rnd> c; int a[] = {4*1+0, 4*1+1, 4*2+0}; bool in[3];
 for(int i = 0; i < 3; ++i) in[i] = c.add(a[i]);
 for(int i = 0; i < 3; ++i) if(in[i] && !c.lookup(a[i])) return 1;
 return 0; }
''')
seed('cuckoo_remove_zero', 'C02', 'cuckoo_filter.hpp', [('set_entry(bucket_index, entry_index, empty_value);\n		}', 'set_entry(bucket_index, entry_index, 0);\n		}')],
 'a filter whose empty value is not zero, an addition and a removal, then lookups of fingerprint zero', 'A removed entry holds fingerprint zero instead of being empty: lookups of fingerprint zero are positive and the entry is never used again.', r'''
#include <cassert>
#include <cmath>
using namespace std;
#define BYTE_SIZE 8
#include "cuckoo_filter.hpp"
struct F{ static unsigned char fingerprint(int const* e){ return *e & 3; } static unsigned int hash(int const* e){ return 0; } static unsigned int hash(unsigned char fp){ return 0; } };
double rnd(){ return 0.25; }
int main(){ CuckooFilter<int, 1, 1, 2, F, rnd, 3> c; if(!c.add(1)) return 2; c.remove(1); if(c.lookup(0)) return 1; return c.add(2) && c.lookup(2) ? 0 : 1; }
''')
seed('ltc_low_only', 'L01', 'ltc.hpp', [('		if(old_low_deriva > new_low_deriva) {', '		else if(old_low_deriva > new_low_deriva) {')],
 'a point that must keep both the upper and the lower limit (it lies well inside the cone)', 'The lower limit is widened by a point that keeps the upper limit, so that the segment transmitted leaves the tolerance of an earlier point.', r'''
#include "ltc.hpp"
#include <cstdio>
int main(){ // every stream of 6 points of a few shapes: each point within epsilon of the reconstruction
 int bad = 0;
 for(int c = 0; c < 7*7*7*7; ++c){ int v[7], x = c; v[0] = 0; for(int i = 1; i < 5; ++i){ v[i] = (x % 7 - 3) * 4; x /= 7; } v[5] = 1000; v[6] = -1000;
  LTC<double, int, 10> l; double T[8], V[8]; int n = 0;
  for(int i = 0; i < 7; ++i) if(l.add(i, v[i])){ int t; double w; l.get_value_to_transmit(t, w); T[n] = t; V[n] = w; ++n; }
  for(int i = 0; i < 7; ++i) for(int k = 0; k + 1 < n; ++k) if(T[k] <= i && i <= T[k+1]){ double e = V[k] + (V[k+1]-V[k]) * (i - T[k]) / (T[k+1]-T[k]) - v[i]; if(e > 10.001 || e < -10.001) bad++; }
 }
 printf("%d\n", bad); return bad ? 1 : 0; }
''')
seed('reservoir_threshold', 'R02', 'reservoir_sampling.hpp', [('static_cast<double>(sample_size) / static_cast<double>(counter+1);', 'static_cast<double>(sample_size) / static_cast<double>(counter > 2*sample_size ? counter+1 : counter);')],
 'a draw between k/n and k/(n-1), for an element soon after the reservoir is full', 'Elements just after the reservoir is full are accepted with probability k/(n-1) instead of k/n.', r'''
#include "reservoir_sampling.hpp"
static double r[2]; static int i;
struct F{ static double random(){ return r[i++]; } static int floor(double d){ return (int)d; } };
int main(){ ReservoirSampling<int, 2, F> s; s.add(1); s.add(2); r[0] = 0.7; r[1] = 0.1; return s.add(3) == -1 ? 0 : 1; }
''')
seed('exp_reservoir_range', 'R03', 'reservoir_sampling.hpp', [('index = func::floor(rdn * static_cast<double>(counter));', 'index = func::floor(rdn * static_cast<double>(sample_size));')],
 'a replacement while the reservoir is not full yet, with a draw above stored/size', 'Replacements in a partly filled reservoir fall on the last stored element with too high a probability.', r'''
#include "reservoir_sampling.hpp"
static double r[8] = {0.9, 0.9, 0.1, 0.4}; static int i;
struct F{ static double random(){ return r[i++]; } static int floor(double d){ return (int)d; } };
int main(){ ExponentialReservoirSampling<int, 4, F> s; s.add(1); s.add(2); return s.add(3) == 0 ? 0 : 1; }
''')
seed('chained_clear_one', 'H01', 'chained_reservoir.hpp', [('		clear_chain(start->next);', '		if(start->next != NULL && start->next->next != NULL)\n			clear_chain(start->next);')],
 'a slot with a chain of at least two successors that is replaced, then refilled and expired', 'Successors of a replaced element stay in the chain and reappear when the new element expires.', r'''
#include <cassert>
#include <cstdlib>
#include <cstddef>
#include "chained_reservoir.hpp"
static double r[] = {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}; static int i;
static double seq[] = {0, 0.99,0, 0.99,0, 0.0,0,0,0, 0.99,0, 0.99,0};
struct F{ static double random(){ return seq[i++]; } static void* malloc(size_t n){ return ::malloc(n); } };
int main(){
 // reservoir of one; each draw decides: element 1 kept, 2 and 3 become successors, 4 replaces, then everything up to 4 expires
 ChainedReservoirSampling<int, 1, F> s;
 s.add(1, 1); s.add(2, 2); s.add(3, 3); s.add(4, 9); 
 s.obsolete(9);
 int v = s[0];
 return v == 4 ? 0 : 1; }
''', flags='-g -fsanitize=address,undefined -fno-sanitize-recover=all -DASAN_NOLEAK')
seed('kappa_bulk_error', 'E02', 'metrics.hpp', [('		confusion[0][1] += c;\n		total += c;', '		confusion[0][1] += c;\n		total += 1;')],
 'an increase of the errors by more than one', 'The total and the confusion matrix disagree, so kappa is wrong and leaves [-1,1].', r'''
#include "metrics.hpp"
int main(){ KappaMetrics<2> k; k.update(1, 1); k.update(0, 0); k.increase_error(3); // matrix {1,3;0,1}: kappa = (5*2 - (4*1 + 1*4)) / (25 - 8)
 double e = (10.0 - 8.0) / 17.0; double d = k.kappa() - e; return d < 1e-9 && d > -1e-9 ? 0 : 1; }
''')
seed('bayes_weight', 'N01', 'naive_bayes.hpp', [('variance_sum += weight * (value - previous_mean) * (value - mean);', 'variance_sum += (value - previous_mean) * (value - mean);')],
 'a point of weight other than one that is not the first of its label', 'The variance ignores the weight of the points.', r'''
#include <cmath>
using namespace std;
#include "naive_bayes.hpp"
static double last;
struct F{ static double log(double x){ return x > 0 ? std::log(x) : -1e30; } static double sqrt(double x){ last = x; return std::sqrt(x); } };
int main(){ NaiveBayes<double, 1, 1, F> n; double a = 0, b = 4; n.train(&a, 0, 1.0); n.train(&b, 0, 3.0); double q = 3; n.predict(&q);
 // mean 3, sum of squares 9 + 3 = 12, variance 12 / 3
 return last > 3.999 && last < 4.001 ? 0 : 1; }
''')
seed('bayes_tie', 'N02', 'naive_bayes.hpp', [('if(local_score[max_l] < local_score[l])', 'if(local_score[max_l] <= local_score[l])')],
 'two labels with exactly the same score', 'Among equally likely labels the last one is predicted instead of the first.', r'''
#include <cmath>
using namespace std;
#include "naive_bayes.hpp"
struct F{ static double log(double x){ return x > 0 ? std::log(x) : -1e30; } static double sqrt(double x){ return std::sqrt(x); } };
int main(){ NaiveBayes<double, 2, 1, F> n; double a[] = {0, 4, 0, 4}; for(int i = 0; i < 4; ++i) n.train(a + i, i / 2); double q = 3; return n.predict(&q) == 0 ? 0 : 1; }
''')
seed('mcnn_tie', 'M01', 'mc_nn.hpp', [('		if(nearest_with_class >= 0 && shortest_distance == distance_nearest)\n			nearest = nearest_with_class;\n', '')],
 'a training point exactly half way between two clusters, its own label being the later one', 'The point counts as an error of both clusters, so that they split although the nearest cluster has its label.', r'''
#include "mc_nn.hpp"
int main(){ MCNN<double, 1, 10> m(1); double a = 0, b = 10, c = 5; m.train(&a, 0); m.train(&b, 1); m.train(&c, 1); return m.count_clusters() == 2 ? 0 : 1; }
''')
seed('mcnn_full_replace', 'M02', 'mc_nn.hpp', [('				clusters[new_idx].initialize(features, label, timestamp, error_thr);\n				return true;\n			}\n			//If no', '				clusters[new_idx].incorporate(features, timestamp);\n				return true;\n			}\n			//If no')],
 'a full model and a point of a label that has no cluster', 'A full model does not give a new label a cluster of its own.', r'''
#include "mc_nn.hpp"
int main(){ MCNN<double, 1, 2> m; double a = 0, b = 10, c = 20; m.train(&a, 0); m.train(&b, 1); if(!m.train(&c, 2)) return 2; return m.predict(&c) == 2 ? 0 : 1; }
''')
seed('mlp_order', 'P02', 'perceptron.hpp', [('						neuron_error += neuron_output[neuron_next_layer] * weights[weight_next_layer];\n', '						if(layer_idx == 0 || layer_size[layer_idx] < 2)\n							neuron_error += neuron_output[neuron_next_layer] * weights[weight_next_layer];\n'),
  ('						weights[weight_next_layer] += d_weight;\n', '						weights[weight_next_layer] += d_weight;\n						if(layer_idx > 0 && layer_size[layer_idx] >= 2)\n							neuron_error += func::derivative(current_neuron_output) * neuron_output[neuron_next_layer] * weights[weight_next_layer];\n')],
 'a hidden layer of at least two neurons', 'The error is propagated through the weights after their update, which is not the gradient.', r'''
#include "perceptron.hpp"
struct F{ static double random(){ return 0; } static double activation(double x){ return x; } static double derivative(double x){ return 1; } };
int main(){ int sz[] = {1, 2, 1}; MultiLayerPerceptron<3, 512, F> n(sz, 0.5); double w[] = {1, 0, 1, 0, 1, 1, 0}; n.set_weights(w); double in = 1, out, ex = 0; n.feed_forward(&in, &out); n.backpropagate(&ex);
 // out = 2, delta = 2, hidden deltas 2 each, input weights 1 - 0.5 * 2 * 1
 double e = n.get_weights()[0]; return e > -1e-9 && e < 1e-9 ? 0 : 1; }
''')
seed('mlp_layer_weights', 'P01', 'perceptron.hpp', [('		void set_weights(int layer_idx, double* new_weights){\n			int base_index = 0;\n			for(int l = 1; l < layer_idx; ++l)\n				base_index += layer_size[l] * (layer_size[l-1]+1);', '		void set_weights(int layer_idx, double* new_weights){\n			int base_index = 0;\n			for(int l = 1; l < layer_idx; ++l)\n				base_index += layer_size[l-1] * (layer_size[l]+1);')],
 'weights set by layer, for the second layer or later, after a layer whose size differs from the one before', 'The weights of a layer are stored at the wrong place.', r'''
#include "perceptron.hpp"
struct F{ static double random(){ return 0; } static double activation(double x){ return x; } static double derivative(double x){ return 1; } };
int main(){ int sz[] = {1, 2, 1}; MultiLayerPerceptron<3, 512, F> n(sz); double a[] = {1, 0, 1, 0}, b[] = {3, 5, 7}; n.set_weights(1, a); n.set_weights(2, b); double in = 1, out; n.feed_forward(&in, &out); return out == 15 ? 0 : 1; }
''')

From eecb73d886160309958aaf2ded659745d3386b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:37 +0000
Subject: [PATCH 01/46] fix: CuckooFilter starts and clears with empty_value,
 not zero

---
 src/cuckoo_filter.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cuckoo_filter.hpp b/src/cuckoo_filter.hpp
index fc6f279..5c4fd69 100644
--- a/src/cuckoo_filter.hpp
+++ b/src/cuckoo_filter.hpp
@@ -148,6 +148,7 @@ class CuckooFilter{
 	 * Basic constructor.
 	 */
 	CuckooFilter(){
+		clear();
 	}
 	/**
 	 * Add a new element to the filter.
@@ -242,5 +243,10 @@ class CuckooFilter{
 	void clear(void){
 		for(unsigned char& byte : filter)
 			byte = 0;
+		//An entry is available when it contains `empty_value`, which is not necessarily zero
+		if(empty_value != 0)
+			for(int i = 0; i < bucket_count; ++i)
+				for(int j = 0; j < bucket_size; ++j)
+					set_entry(i, j, empty_value);
 	}
 };
-- 
2.43.0


From 8112421da3b9064d899ce95733fbda2d022708c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:43 +0000
Subject: [PATCH 02/46] fix: CuckooFilter leaves the filter unchanged when an
 insertion fails

---
 src/cuckoo_filter.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/cuckoo_filter.hpp b/src/cuckoo_filter.hpp
index 5c4fd69..eb47b2b 100644
--- a/src/cuckoo_filter.hpp
+++ b/src/cuckoo_filter.hpp
@@ -167,6 +167,8 @@ class CuckooFilter{
 		unsigned int h2 = h1 ^ funct::hash(fp);
 
 		bool inserted = false;
+		//Remember what was evicted to put it back if the insertion fails.
+		unsigned int evicted_bucket[500], evicted_entry[500];
 		int i = 0;
 		do{
 			int space_h1 = space_in_bucket(h1);
@@ -195,6 +197,8 @@ class CuckooFilter{
 				auto space_h = static_cast<unsigned int>(floor(random_function() * (bucket_size-1)));
 				fingerprint_t tmp = get_entry(h, space_h);
 				set_entry(h, space_h, fp);
+				evicted_bucket[i] = h;
+				evicted_entry[i] = space_h;
 				fp = tmp;
 				h1 = h;
 				h2 = h1 ^ funct::hash(fp);
@@ -202,6 +206,14 @@ class CuckooFilter{
 			i += 1;
 		}while(i < 500);
 
+		//The element does not fit: undo the evictions, otherwise the last evicted fingerprint would be lost.
+		while(!inserted && i > 0){
+			i -= 1;
+			fingerprint_t tmp = get_entry(evicted_bucket[i], evicted_entry[i]);
+			set_entry(evicted_bucket[i], evicted_entry[i], fp);
+			fp = tmp;
+		}
+
 		return inserted;
 	}
 	/**
-- 
2.43.0


From cfd1d6a96ab2c07f55cf7853ec2194ef0500c5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:55 +0000
Subject: [PATCH 03/46] fix: LTC restarts from the timestamp of the previous
 point, not from timestamp - 1

---
 src/ltc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ltc.hpp b/src/ltc.hpp
index 8022fe4..78bf827 100644
--- a/src/ltc.hpp
+++ b/src/ltc.hpp
@@ -120,7 +120,7 @@ class LTC{
 			to_transmit = last_transmit_point;
 			//Update the last_transmit_point
 			element_type tmp_param = (UL.value + LL.value) / 2;
-			last_transmit_point.timestamp = timestamp - 1;
+			last_transmit_point.timestamp = UL.timestamp;
 			last_transmit_point.value = tmp_param;
 			counter = 1;
 			add(timestamp, value);
-- 
2.43.0


From a623c95aff42d06be7737cbf05a1b7d291646201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:55 +0000
Subject: [PATCH 04/46] fix: LTC extrapolates its limits with the time unit
 used for the slopes

---
 src/ltc.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ltc.hpp b/src/ltc.hpp
index 78bf827..0397b4f 100644
--- a/src/ltc.hpp
+++ b/src/ltc.hpp
@@ -69,11 +69,11 @@ class LTC{
 			return true;
 
 		if(old_up_deriva < new_up_deriva) {
-			new_ul.value = (new_ul.timestamp - UL.timestamp) / time_unit_difference * old_up_deriva + UL.value;
+			new_ul.value = (double)(new_ul.timestamp - UL.timestamp) * time_unit_difference * old_up_deriva + UL.value;
 		}
 
 		if(old_low_deriva > new_low_deriva) {
-			new_ll.value = (new_ll.timestamp - LL.timestamp) / time_unit_difference * old_low_deriva + LL.value;
+			new_ll.value = (double)(new_ll.timestamp - LL.timestamp) * time_unit_difference * old_low_deriva + LL.value;
 		}
 		return false;
 	}
-- 
2.43.0


From 301ff0564a5a05e5c014673e507333f72dac58eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:55 +0000
Subject: [PATCH 05/46] fix: LTC compiles for element types other than int

---
 src/ltc.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ltc.hpp b/src/ltc.hpp
index 0397b4f..5f3fcc2 100644
--- a/src/ltc.hpp
+++ b/src/ltc.hpp
@@ -52,9 +52,9 @@ class LTC{
 	 */
 	void update(timestamp_type const timestamp, element_type const value){
 		new_ul.timestamp = timestamp;
-		new_ul.value = min(value + epsilon, max_value);
+		new_ul.value = min<decltype(value + epsilon)>(value + epsilon, max_value);
 		new_ll.timestamp = timestamp;
-		new_ll.value = max(value - epsilon, min_value);
+		new_ll.value = max<decltype(value - epsilon)>(value - epsilon, min_value);
 	}
 	/*
 	 * Compute the need to transmit the compress data point.
-- 
2.43.0


From 2d49fe7041388f2d52a5a5790584f16e35c2fb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:21 +0000
Subject: [PATCH 06/46] fix: LTC keeps its limits as doubles so that integer
 element types do not drift past epsilon

---
 src/ltc.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/ltc.hpp b/src/ltc.hpp
index 5f3fcc2..a33831c 100644
--- a/src/ltc.hpp
+++ b/src/ltc.hpp
@@ -16,7 +16,16 @@ class LTC{
 		timestamp_type timestamp;
 		element_type value;
 	};
-	data_point last_transmit_point, UL, LL, new_ul, new_ll, to_transmit;
+	/*
+	 * Internal structure to describe an upper or lower limit. The value is a double, because rounding a limit to
+	 * an integer element_type at every point would make it drift away from epsilon.
+	 */
+	struct limit{
+		timestamp_type timestamp;
+		double value;
+	};
+	data_point last_transmit_point, to_transmit;
+	limit UL, LL, new_ul, new_ll;
 
 	int counter = 0; //Counter make sure the algorithm does not fail for the first 3 values
 
-- 
2.43.0


From 66ec93f75edeb89e1335882505256c9ad03eb9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:00 +0000
Subject: [PATCH 07/46] fix: reservoirs stay in bounds when the random function
 returns 1

---
 src/reservoir_sampling.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/reservoir_sampling.hpp b/src/reservoir_sampling.hpp
index f7cc7b1..17c6b7f 100644
--- a/src/reservoir_sampling.hpp
+++ b/src/reservoir_sampling.hpp
@@ -65,8 +65,12 @@ class ReservoirSampling : public Reservoir<element_type, sample_size>{
 			//We use counter+1 because the current item is not counted in counter yet
 			double const threshold = static_cast<double>(sample_size) / static_cast<double>(counter+1);
 			double const rnd = func::random();
-			if(rnd < threshold)
+			if(rnd < threshold){
 				idx = func::floor(func::random() * static_cast<double>(sample_size));
+				//The random function may return exactly 1
+				if(idx >= static_cast<int>(sample_size))
+					idx = sample_size - 1;
+			}
 		}
 		counter += 1;
 		return idx;
@@ -113,10 +117,13 @@ class ExponentialReservoirSampling : public Reservoir<element_type, sample_size>
 		double const filling_ratio = static_cast<double>(counter)/static_cast<double>(sample_size);
 		double const remove_element = func::random();
 		int index;
-		if(remove_element < filling_ratio){
+		//NOTE: the random function may return exactly 1, hence the check on counter and index.
+		if(remove_element < filling_ratio || counter >= sample_size){
 			double const rdn = func::random();
 			//NOTE: index range from [0, counter[.
 			index = func::floor(rdn * static_cast<double>(counter));
+			if(index >= static_cast<int>(counter))
+				index = counter - 1;
 		}
 		else{
 			index = counter;
-- 
2.43.0


From ee0c6b150a7bfafe33ea3d325721a48684e0f420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:56 +0000
Subject: [PATCH 08/46] fix: ChainedReservoirSampling shifts a chain without
 overwriting its nodes

---
 src/chained_reservoir.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/chained_reservoir.hpp b/src/chained_reservoir.hpp
index 3a0224b..0312984 100644
--- a/src/chained_reservoir.hpp
+++ b/src/chained_reservoir.hpp
@@ -84,22 +84,22 @@ class ChainedReservoirSampling{
 	 * @param current the node that should replace head.
 	 */
 	void shift_chain(node& head, node& current){//TODO improve this to avoid overwriting elements
-		node& receiver = head;
-		node& mover = current;
+		node* receiver = &head;
+		node* mover = &current;
 		while(1){//TODO add security
-			receiver.element = mover.element;
-			receiver.timestamp = mover.timestamp;
-			if(mover.next != NULL){
-				mover = *mover.next;
-				receiver = *receiver.next;
+			receiver->element = mover->element;
+			receiver->timestamp = mover->timestamp;
+			if(mover->next != NULL){
+				mover = mover->next;
+				receiver = receiver->next;
 			}
 			else
 				break;
 		}
 		//Once everything is shifted, disable all following cells
-		while(receiver.next != NULL){
-			receiver = *receiver.next;
-			receiver.timestamp = 0;
+		while(receiver->next != NULL){
+			receiver = receiver->next;
+			receiver->timestamp = 0;
 		}
 	}
 	public:
-- 
2.43.0


From 73a20df762934acb1e0b3b784d3f5ff1c3efa7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:56 +0000
Subject: [PATCH 09/46] fix: ChainedReservoirSampling::obsolete includes the
 timestamp itself, as documented

---
 src/chained_reservoir.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chained_reservoir.hpp b/src/chained_reservoir.hpp
index 0312984..d6e539f 100644
--- a/src/chained_reservoir.hpp
+++ b/src/chained_reservoir.hpp
@@ -170,7 +170,7 @@ class ChainedReservoirSampling{
 			node* current = &head;
 			bool do_shift = true;
 
-			while(current->timestamp < timestamp){
+			while(current->timestamp <= timestamp){
 				if(current->next == NULL){
 					do_shift = false;
 					break;
-- 
2.43.0


From 50c472b2ffbf2651f0ada6be7aa868b84d0ae7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:56 +0000
Subject: [PATCH 10/46] fix: ChainedReservoirSampling does not lose a sampled
 element of timestamp 0

---
 src/chained_reservoir.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chained_reservoir.hpp b/src/chained_reservoir.hpp
index d6e539f..a179ba5 100644
--- a/src/chained_reservoir.hpp
+++ b/src/chained_reservoir.hpp
@@ -57,7 +57,7 @@ class ChainedReservoirSampling{
 		int i = 0;
 		//The only thing that could make this loop forever is a corruption the linked list of node that loop over the same data without empty space.
 		while(i < 5000){ //`i` is just a security
-			if(current->timestamp == 0){ // This cell is available
+			if(current != &head && current->timestamp == 0){ // This cell is available (the head is always in use)
 				current->element = e;
 				current->timestamp = timestamp;
 				return;
-- 
2.43.0


From 5aaf4af4e8eec4238a1ef9ff0513ed7289eef453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:56 +0000
Subject: [PATCH 11/46] fix: ChainedReservoirSampling accepts with probability
 k/n and picks its slot uniformly

---
 src/chained_reservoir.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/chained_reservoir.hpp b/src/chained_reservoir.hpp
index a179ba5..0914bea 100644
--- a/src/chained_reservoir.hpp
+++ b/src/chained_reservoir.hpp
@@ -127,10 +127,14 @@ class ChainedReservoirSampling{
 			next[counter] = counter + 1 + round(funct::random() * (sample_size-1));
 		}
 		else{
-			double const threshold = (double)sample_size / (double)counter;
+			//We use counter+1 because the current item is not counted in counter yet
+			double const threshold = (double)sample_size / ((double)counter + 1);
 			double const rnd = funct::random();
 			if(rnd < threshold){
-				int const index = round(funct::random() * (sample_size-1));
+				//Every slot has the same probability, and the random function may return exactly 1
+				unsigned int index = (unsigned int)(funct::random() * sample_size);
+				if(index >= sample_size)
+					index = sample_size - 1;
 				sample[index].element = e;
 				sample[index].timestamp = timestamp;
 				clear_chain(sample[index].next); //NOTE we do not free the memory here, but it might be interesting to think about it
-- 
2.43.0


From f19cf75e4430688b506b8b2a5b2cee496003d1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:56 +0000
Subject: [PATCH 12/46] fix: pick_from_distribution never returns an index of
 probability 0 or out of range

---
 src/utils.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/utils.hpp b/src/utils.hpp
index f86478a..d317cec 100644
--- a/src/utils.hpp
+++ b/src/utils.hpp
@@ -14,10 +14,16 @@ class Utils{
 		double const u = func::rand_uniform(); //Sample a random number between [0,1[
 		//NOTE improve with a log search :]
 		for(int i = 0; i < size; ++i){
-			if(u <= probabilities[i])
+			//NOTE: u can be 0, so this has to be strict to never pick an index of probability 0
+			if(u < probabilities[i])
 				return i;
 		}
-		return size;//NOTE: this should never happen unless the last element of *probabilities* is less than 1
+		//The last element of *probabilities* can be slightly less than 1 because of rounding: use the last index that has a chance
+		for(int i = size-1; i > 0; --i){
+			if(probabilities[i] > probabilities[i-1])
+				return i;
+		}
+		return 0;
 	}
 	/**
 	 * Turn an array of values into a sum of probabilities according to these values.
-- 
2.43.0


From 29e8008cac5cdcee0a90127776204ddb54d9fca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:56 +0000
Subject: [PATCH 13/46] fix: shuffle can leave an element in place, so that
 every permutation is equally likely

---
 src/utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.hpp b/src/utils.hpp
index d317cec..c5790e4 100644
--- a/src/utils.hpp
+++ b/src/utils.hpp
@@ -89,7 +89,7 @@ class Utils{
 	inline static void shuffle(T* array, int const size){
 		for(int i = size-1; i > 0; --i){
 			T tmp = array[i];
-			int swap_idx = static_cast<int>(func::rand_uniform()*static_cast<double>(i));
+			int swap_idx = static_cast<int>(func::rand_uniform()*static_cast<double>(i+1));
 			array[i] = array[swap_idx];
 			array[swap_idx] = tmp;
 		}
-- 
2.43.0


From 2fdd9f3322c033cec04679ed87877c03d7a82445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:49 +0000
Subject: [PATCH 14/46] fix: KappaMetrics is a number when only one label was
 seen

---
 src/metrics.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/metrics.hpp b/src/metrics.hpp
index 78ba46e..2cdeaa5 100644
--- a/src/metrics.hpp
+++ b/src/metrics.hpp
@@ -77,7 +77,11 @@ class KappaMetrics{
 			}
 			sum_colrow += sum_col * sum_row;
 		}
-		return (static_cast<double>(total) * diaganol - sum_colrow) / (static_cast<double>(total) * static_cast<double>(total) - sum_colrow);
+		//When every observation has the same label and prediction, agreement by chance is also 1: this is still a perfect agreement.
+		double const denominator = static_cast<double>(total) * static_cast<double>(total) - sum_colrow;
+		if(denominator == 0)
+			return total > 0 ? 1 : 0;
+		return (static_cast<double>(total) * diaganol - sum_colrow) / denominator;
 	}
 	double score(bool const invert = false, int const tree_size=-1) const{
 		if(use_ratio && invert)
-- 
2.43.0


From 5d0b8275e4deda7e00db0ddb06504b065118929e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:50 +0000
Subject: [PATCH 15/46] fix: MCNN finds the nearest cluster at any distance

---
 src/mc_nn.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mc_nn.hpp b/src/mc_nn.hpp
index beec111..bf5275a 100644
--- a/src/mc_nn.hpp
+++ b/src/mc_nn.hpp
@@ -229,7 +229,7 @@ class MCNN{
 			//NOTE: finding both the nearest and the nearest with class could be done in one pass, but I choose to use 2 different functions to make it clearer.
 			clusters[cluster_idx].centroid(centroid);
 			double const distance = euclidean_distance(features, centroid);
-			if(distance < shortest_distance){
+			if(nearest_cluster < 0 || distance < shortest_distance){
 				nearest_cluster = cluster_idx;
 				shortest_distance = distance;
 			}
@@ -237,7 +237,7 @@ class MCNN{
 		nearest_with_class = nearest_cluster;
 
 		//If the distance to the micro-cluster with the same class is the same as an other cluster which was picked, then replace nearest.
-		if(shortest_distance == distance_nearest)
+		if(nearest_with_class >= 0 && shortest_distance == distance_nearest)
 			nearest = nearest_with_class;
 	}
 	/**
@@ -259,7 +259,7 @@ class MCNN{
 			clusters[cluster_idx].centroid(centroid);
 			//Compute the squared euclidean distance
 			double const distance = euclidean_distance(features, centroid);
-			if(distance < shortest_distance){
+			if(nearest_cluster < 0 || distance < shortest_distance){
 				nearest_cluster = cluster_idx;
 				shortest_distance = distance;
 			}
-- 
2.43.0


From 15b9c18bb83e39c17f7540bc20bd01436cb0d26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:50 +0000
Subject: [PATCH 16/46] fix: MCNN counts its active clusters

---
 src/mc_nn.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mc_nn.hpp b/src/mc_nn.hpp
index bf5275a..eb6c618 100644
--- a/src/mc_nn.hpp
+++ b/src/mc_nn.hpp
@@ -187,8 +187,10 @@ class MCNN{
 
 		clusters[new_idx].initialize(cluster_minus, clusters[cluster_idx].label, old_time, error_thr);
 		clusters[cluster_idx].initialize(cluster_plus, clusters[cluster_idx].label, old_time, error_thr);
+		//The new cluster might replace an active one
+		if(!active[new_idx])
+			count_active_cluster += 1;
 		active[new_idx] = true;
-		count_active_cluster += 1;
 	}
 	/**
 	 * Compute the squared distance between two data point.
@@ -281,8 +283,10 @@ class MCNN{
 	 */
 	void clean_low_performance_clusters(void){
 		for(int i = 0; i < max_cluster; ++i)
-			if(active[i] == true && clusters[i].data_count > 1 && clusters[i].performance(timestamp) < performance_thr)
+			if(active[i] == true && clusters[i].data_count > 1 && clusters[i].performance(timestamp) < performance_thr){
 				active[i] = false;
+				count_active_cluster -= 1;
+			}
 	}
 	public:
 	/**
-- 
2.43.0


From 633da995080e6e8f6d989ddf04420fd49bf4e556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:50 +0000
Subject: [PATCH 17/46] fix: MCNN splits clusters of negative integer features
 around their centroid

---
 src/mc_nn.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mc_nn.hpp b/src/mc_nn.hpp
index eb6c618..585d120 100644
--- a/src/mc_nn.hpp
+++ b/src/mc_nn.hpp
@@ -175,7 +175,8 @@ class MCNN{
 		//Create two separate feature data points based on the centroid of the original cluster
 		feature_type cluster_minus[feature_count], cluster_plus[feature_count];
 		for(int i = 0; i < feature_count; ++i){
-			cluster_minus[i] = cluster_plus[i] = clusters[cluster_idx].features_sum[i] / clusters[cluster_idx].data_count;
+			//NOTE: the sum can be negative while data_count is unsigned
+			cluster_minus[i] = cluster_plus[i] = (double)clusters[cluster_idx].features_sum[i] / (double)clusters[cluster_idx].data_count;
 		}
 
 		//Update the spliting attribut
-- 
2.43.0


From 0e9d995b5ee64725951338684982a889146589a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:50 +0000
Subject: [PATCH 18/46] fix: MCNN variance is never negative

---
 src/mc_nn.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mc_nn.hpp b/src/mc_nn.hpp
index 585d120..1672d18 100644
--- a/src/mc_nn.hpp
+++ b/src/mc_nn.hpp
@@ -36,7 +36,8 @@ class MCNN{
 			double const a = (double)features_square_sum[features_idx] / (double)data_count; //CF2X
 			double const b = (double)features_sum[features_idx] / (double)data_count; //CF1X
 			double const ret=a - b*b;
-			return ret;
+			//Rounding can make the variance slightly negative, and its square root is needed
+			return ret > 0 ? ret : 0;
 		}
 		/**
 		 * Incorporate a data point into the micro-cluster.
-- 
2.43.0


From f22589c91de121a1fd60e58ac47adf969069b942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:50 +0000
Subject: [PATCH 19/46] fix: MCNN does not split a cluster into itself when no
 cluster is free

---
 src/mc_nn.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/mc_nn.hpp b/src/mc_nn.hpp
index 1672d18..b43169b 100644
--- a/src/mc_nn.hpp
+++ b/src/mc_nn.hpp
@@ -127,12 +127,13 @@ class MCNN{
 
 	/**
 	 * Returns the micro-cluster with the lowest participation
+	 * @param except the index of a cluster to ignore.
 	 */
-	int get_lowest_participation(void){
+	int get_lowest_participation(int const except=-1){
 		int lowest = -1;
 		double lowest_value = 101;
 		for(int i = 0; i < max_cluster; ++i){
-			if(active[i] == true){
+			if(active[i] == true && i != except){
 				double const perf = clusters[i].performance(timestamp);
 				if(lowest == -1 || perf < lowest_value){
 					lowest_value = perf;
@@ -156,8 +157,12 @@ class MCNN{
 		}
 		if(new_idx < 0){
 			//Remove the least performant cluster.
-			if(cleaning_method == 0 || cleaning_method == 2)
-				new_idx = get_lowest_participation();
+			if(cleaning_method == 0 || cleaning_method == 2){
+				//The second half of the split cannot replace the cluster that is being split
+				new_idx = get_lowest_participation(cluster_idx);
+				if(new_idx < 0)
+					return;
+			}
 			else //There is no more space and the cleaning method does not allow us to remove a cluster here
 				return;
 		}
-- 
2.43.0


From 997c937bd193c03881762655818d2b68d5de2d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:27 +0000
Subject: [PATCH 20/46] fix: backpropagate does not read before layer_size

---
 src/perceptron.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/perceptron.hpp b/src/perceptron.hpp
index 1b20ed4..d588f9f 100644
--- a/src/perceptron.hpp
+++ b/src/perceptron.hpp
@@ -151,7 +151,6 @@ class MultiLayerPerceptron{
 		 */
 		double backpropagate(double const* expected){
 			int output_base = get_output_base(layer_count-1);
-			int weight_base = get_weight_base(layer_count-1);
 
 			double sum_error_output = 0;
 			//Set the error of the last layer
@@ -165,7 +164,8 @@ class MultiLayerPerceptron{
 
 			for(int layer_idx = layer_count - 2; layer_idx >= 0; --layer_idx){
 				output_base -= layer_size[layer_idx];
-				weight_base -= (layer_size[layer_idx-1]+1) * layer_size[layer_idx];
+				//The base index of the weights between this layer and the next one (the layer 0 has no weights, and no previous layer)
+				int const weight_base = get_weight_base(layer_idx+1);
 				for(int neuron_idx = 0; neuron_idx <= layer_size[layer_idx]; ++neuron_idx){
 					double neuron_error = 0;
 					double current_neuron_output = 1;
@@ -174,7 +174,7 @@ class MultiLayerPerceptron{
 					for(int weight_idx = 0; weight_idx < layer_size[layer_idx+1]; ++weight_idx){
 
 						int neuron_next_layer = output_base + layer_size[layer_idx] + weight_idx;
-						int weight_next_layer = weight_base + (layer_size[layer_idx-1]+1) * layer_size[layer_idx] + weight_idx * (layer_size[layer_idx]+1) + neuron_idx;
+						int weight_next_layer = weight_base + weight_idx * (layer_size[layer_idx]+1) + neuron_idx;
 						neuron_error += neuron_output[neuron_next_layer] * weights[weight_next_layer];
 					}
 					neuron_error *= func::derivative(current_neuron_output);
@@ -183,7 +183,7 @@ class MultiLayerPerceptron{
 					for(int weight_idx = 0; weight_idx < layer_size[layer_idx+1]; ++weight_idx){
 
 						int neuron_next_layer = output_base + layer_size[layer_idx] + weight_idx;
-						int weight_next_layer = weight_base + (layer_size[layer_idx-1]+1) * layer_size[layer_idx] + weight_idx * (layer_size[layer_idx]+1) + neuron_idx;
+						int weight_next_layer = weight_base + weight_idx * (layer_size[layer_idx]+1) + neuron_idx;
 						double d_weight = - learning_rate * current_neuron_output * neuron_output[neuron_next_layer];
 						weights[weight_next_layer] += d_weight;
 					}
-- 
2.43.0


From 5af1ab16611baa8fcb0fdb82be4e210dd899654e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:57 +0000
Subject: [PATCH 21/46] fix: Hoeffding tree buffers account for the counters of
 every node

The counters of a node took no place in the buffer, so the nodes shared them.
---
 src/hoeffding_tree.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hoeffding_tree.hpp b/src/hoeffding_tree.hpp
index e6ac27d..f35f67c 100644
--- a/src/hoeffding_tree.hpp
+++ b/src/hoeffding_tree.hpp
@@ -50,6 +50,7 @@ class HoeffdingTree{
 			int const total_size_counters = compute_total_size_counters(tree->sum_feature_size);
 			int const tmp_preset = tree->buffer_preset - total_size_counters;
 			this->split_feature = - ((max_size - tmp_preset) / total_size_counters); //we need negative number because counters are store on the other side of buffer
+			tree->buffer_preset = tmp_preset; //These counters belong to this node from now on
 			reset_counters();
 			double const infinity = std::numeric_limits<float>::infinity();
 			for(int i = 0; i < feature_count; ++i){
-- 
2.43.0


From 45088cdb0cc405840be50166f6951d2fd7368787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:00 +0000
Subject: [PATCH 22/46] fix: Hoeffding tree checks the room for both children
 before a split

A split with no room left used node -1 as a child.
---
 src/hoeffding_tree.hpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/hoeffding_tree.hpp b/src/hoeffding_tree.hpp
index f35f67c..3dbadb2 100644
--- a/src/hoeffding_tree.hpp
+++ b/src/hoeffding_tree.hpp
@@ -125,11 +125,13 @@ class HoeffdingTree{
 		 * @param value The value to use for the split.
 		 */
 		int split(int const feature, double const value){
-			Node* child_right = new (*tree) Node(*tree);
+			int const needed_size = static_cast<int>(2 * sizeof(Node)) + compute_total_size_counters();
+			if(tree->buffer_offset + needed_size > tree->buffer_preset) // No more node available
+				return -1;
 			//NOTE: child_left has been created re-using counters and bounds from current node
+			//NOTE: it has to be created before child_right, because creating child_right takes the last counters
 			Node* child_left = new (*tree) Node(*this); 
-			if(child_left == nullptr || child_right == nullptr) // No more node available
-				return -1;
+			Node* child_right = new (*tree) Node(*tree);
 			//This operation return the index of child_left since the cell size of the pointer is sizeof Node
 			children[0] = child_left - reinterpret_cast<Node*>(tree->buffer); 
 			children[1] = child_right - reinterpret_cast<Node*>(tree->buffer);
@@ -327,7 +329,7 @@ class HoeffdingTree{
 		 * @param size The size to allocate (a must have for any new operator overload).
 		 * @param tree An additional parameter that indicates the tree of the node.
 		 */
-		void* operator new(size_t const size, HoeffdingTree& tree){
+		void* operator new(size_t const size, HoeffdingTree& tree) noexcept{
 			int const tmp_offset = tree.buffer_offset + size;
 			int const tmp_preset = tree.buffer_preset - compute_total_size_counters(tree.sum_feature_size);
 			if(tmp_offset > tmp_preset)
@@ -503,12 +505,14 @@ class HoeffdingTree{
 		int const result = leaf->train(features, label, split_value);
 		if(result >= 0){
 			int const split_result = leaf->split(result, split_value);
+			if(split_result != 0) //The leaf could not be split, it has no children
+				return false;
 			//NOTE: it is very unlikely the node will split, so we don't check
 			if(features[result] <= split_value)
 				leaf->get_left_child()->train(features, label, split_value);
 			else
 				leaf->get_right_child()->train(features, label, split_value);
-			return (split_result == 0);
+			return true;
 		}
 		return true;
 	}
-- 
2.43.0


From bdd32e6f2a3086200f9399e628cdc54ee4593879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:03 +0000
Subject: [PATCH 23/46] fix: Hoeffding tree splits on the feature with the best
 gain

The feature owning the best candidate was looked up with the wrong number of candidates per feature.
---
 src/hoeffding_tree.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hoeffding_tree.hpp b/src/hoeffding_tree.hpp
index 3dbadb2..749a661 100644
--- a/src/hoeffding_tree.hpp
+++ b/src/hoeffding_tree.hpp
@@ -235,11 +235,12 @@ class HoeffdingTree{
 			if(square_diff > epsilon && info_gain[best_split[0]] > 0){
 				split_value = limits[best_split[0]];
 				//Try to retrieve the feature concerned :>
-				int tmp_c = tree->features_size[0];
+				//NOTE: there is one limit less than there is bins
+				int tmp_c = tree->features_size[0] - 1;
 				for(int f = 0; f < feature_count-1; ++f){
 					if(best_split[0] < tmp_c)
 						return f;
-					tmp_c += tree->features_size[f+1];
+					tmp_c += tree->features_size[f+1] - 1;
 				}
 				//If the feature is not found, it must be the last one
 				return feature_count-1;
-- 
2.43.0


From f9ab94ddcae27e64db5a956cfb8dbd6d5f17ac32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:06 +0000
Subject: [PATCH 24/46] fix: Hoeffding tree root box starts empty

It started infinite, so the candidate limits were never numbers.
---
 src/hoeffding_tree.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hoeffding_tree.hpp b/src/hoeffding_tree.hpp
index 749a661..f7104c6 100644
--- a/src/hoeffding_tree.hpp
+++ b/src/hoeffding_tree.hpp
@@ -54,8 +54,9 @@ class HoeffdingTree{
 			reset_counters();
 			double const infinity = std::numeric_limits<float>::infinity();
 			for(int i = 0; i < feature_count; ++i){
-				l_box[i] = -infinity;
-				u_box[i] =  infinity;
+				//The box is empty until the node encounters a data point
+				l_box[i] =  infinity;
+				u_box[i] = -infinity;
 			}
 			int* count;
 			double* limits;
-- 
2.43.0


From 8ceabec64372efbf7dbfbbb9b53e407b830226b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:09 +0000
Subject: [PATCH 25/46] fix: Hoeffding tree counts a point on the side it is
 routed to

Bins used < and the routing <=.
---
 src/hoeffding_tree.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hoeffding_tree.hpp b/src/hoeffding_tree.hpp
index f7104c6..4387674 100644
--- a/src/hoeffding_tree.hpp
+++ b/src/hoeffding_tree.hpp
@@ -189,7 +189,8 @@ class HoeffdingTree{
 				//Look for the bin
 				for(int lim_index = 0; lim_index < (tree->features_size[f]-1); ++lim_index){ //There is one limit less than there  is bins
 					//NOTE the limits are supposed to be sorted
-					if(features[f] < limits[tmp_feature_sum+lim_index-f]){
+					//NOTE a data point equal to the limit goes to the left, like in a split
+					if(features[f] <= limits[tmp_feature_sum+lim_index-f]){
 						label_counters[tmp_feature_sum + lim_index] += 1;
 						limit_found = true;
 						break;
-- 
2.43.0


From 283fff54ca4981dc3e7b2e98877cd25867e89b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:13 +0000
Subject: [PATCH 26/46] fix: Hoeffding tree with one or no split candidate
 stays in bounds

The second best candidate was read out of bounds.
---
 src/hoeffding_tree.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/hoeffding_tree.hpp b/src/hoeffding_tree.hpp
index 4387674..67932cb 100644
--- a/src/hoeffding_tree.hpp
+++ b/src/hoeffding_tree.hpp
@@ -213,7 +213,10 @@ class HoeffdingTree{
 
 			//Look for the two best split.
 			//*best_split* contains indexes.
-			int best_split[2] = {0, 1};
+			int const count_split = tree->sum_feature_size-feature_count;
+			if(count_split == 0) //Each feature has only one bin, there is nothing to split
+				return -1;
+			int best_split[2] = {0, count_split > 1 ? 1 : 0};
 			//The information gain of best_split[0] is always greater than best_split[1]
 			//So we may need to switch it
 			if(info_gain[best_split[0]] < info_gain[best_split[1]]){
@@ -232,7 +235,9 @@ class HoeffdingTree{
 			}
 			//compute Hoeffding bound
 			double const epsilon = 4 * func::log(1/tree->delta) / (2*d_count);
-			double const diff = (info_gain[best_split[0]] - info_gain[best_split[1]]);
+			//NOTE: with only one possible split, the alternative is to not split, which has no information gain
+			double const second_gain = count_split > 1 ? info_gain[best_split[1]] : 0;
+			double const diff = (info_gain[best_split[0]] - second_gain);
 			double const square_diff = diff * diff;
 			if(square_diff > epsilon && info_gain[best_split[0]] > 0){
 				split_value = limits[best_split[0]];
-- 
2.43.0


From 879ca816c7352edc30587919a7a70bc9c7641918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:16 +0000
Subject: [PATCH 27/46] fix: Hoeffding tree empty leaf predicts uniform
 probabilities

It divided zero by zero.
---
 src/hoeffding_tree.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hoeffding_tree.hpp b/src/hoeffding_tree.hpp
index 67932cb..6f7b753 100644
--- a/src/hoeffding_tree.hpp
+++ b/src/hoeffding_tree.hpp
@@ -113,7 +113,8 @@ class HoeffdingTree{
 			//Compute the probabilities.
 			//NOTE: *l* starts at 0 because if it starts at 1, the first probability won't be computed and stored in the array
 			for(int l = 0; l < label_count; ++l){
-				probabilities[l] = counts[l] / sum;
+				//A leaf without any data point has no preference
+				probabilities[l] = sum > 0 ? counts[l] / sum : 1 / static_cast<double>(label_count);
 				if(probabilities[l] > probabilities[best])
 					best = l;
 			}
-- 
2.43.0


From ed9bb10488abe663791f38642689600e678f924f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:19 +0000
Subject: [PATCH 28/46] fix: Mondrian forest train result is initialised

fully_trained was read uninitialised.
---
 src/mondrian.hpp         | 2 +-
 src/mondrian_unbound.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mondrian.hpp b/src/mondrian.hpp
index 0801153..b4ac7c3 100644
--- a/src/mondrian.hpp
+++ b/src/mondrian.hpp
@@ -447,7 +447,7 @@ class MondrianForest{
 	 * @param label The label of the data point.
 	 */
 	bool train(feature_type const* features, int const label){
-		bool fully_trained;
+		bool fully_trained = true;
 		for(int i = 0; i < tree_count; ++i){
 			bool has_trained = train_tree(features, label, i);
 			if(!has_trained)
diff --git a/src/mondrian_unbound.hpp b/src/mondrian_unbound.hpp
index c00bc5b..c50507d 100644
--- a/src/mondrian_unbound.hpp
+++ b/src/mondrian_unbound.hpp
@@ -458,7 +458,7 @@ class MondrianForestUnbound{
 	 * @param label The label of the data point.
 	 */
 	bool train(feature_type const* features, int const label){
-		bool fully_trained;
+		bool fully_trained = true;
 		for(int i = 0; i < tree_count; ++i){
 			bool has_trained = train_tree(features, label, i);
 			if(!has_trained)
-- 
2.43.0


From fba8b25af2dee97784409db4b0963217c0d0de73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:22 +0000
Subject: [PATCH 29/46] fix: Mondrian forest train fails when there is no node
 left for a root

Node -1 was used as the root.
---
 src/mondrian.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mondrian.hpp b/src/mondrian.hpp
index b4ac7c3..db86a27 100644
--- a/src/mondrian.hpp
+++ b/src/mondrian.hpp
@@ -281,6 +281,8 @@ class MondrianForest{
 		if (root_id == EMPTY_NODE){ //The root of the tree does not exist yet
 			//Pick a new node
 			root_id = available_node();
+			if(root_id < 0) //There is no node left for this tree
+				return false;
 
 			//Initialize this node as the root for this tree
 			roots[tree_id] = root_id;
-- 
2.43.0


From 7a8f329780b4d5fb99b3d3186c184cf050cd7334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:25 +0000
Subject: [PATCH 30/46] fix: Mondrian forest predict fills the scores

The scores parameter was ignored.
---
 src/mondrian.hpp         | 5 +++++
 src/mondrian_coarse.hpp  | 6 ++++++
 src/mondrian_unbound.hpp | 5 +++++
 3 files changed, 16 insertions(+)

diff --git a/src/mondrian.hpp b/src/mondrian.hpp
index db86a27..2383993 100644
--- a/src/mondrian.hpp
+++ b/src/mondrian.hpp
@@ -461,6 +461,7 @@ class MondrianForest{
 	 * Predict the label of the data point.
 	 * Return the most likely label.
 	 * @param features The features of the data point.
+	 * @param scores The score of each label.
 	 */
 	int predict(feature_type const* features, double* scores = nullptr){
 		//Update internal count
@@ -487,6 +488,10 @@ class MondrianForest{
 			if(sum_posterior_mean[i] > sum_posterior_mean[best])
 				best = i;
 		}
+		//If *scores* is not null, then the function will also return the scores it found for each label.
+		if(scores != nullptr)
+			for(int k = 0; k < label_count; ++k)
+				scores[k] = sum_posterior_mean[k];
 		return best;
 	}
 };
diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index d99ef14..32e5fa2 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -3260,6 +3260,7 @@ double eval_scores(double const* score, int const label) const{
  * Predict the label of the data point.
  * Return the most likely label.
  * @param features The features of the data point.
+ * @param scores The score of each label.
  */
 int predict(feature_type const* features, double* scores = nullptr, int tree_to_use = -1){
 	if(tree_to_use < 0)
@@ -3287,6 +3288,11 @@ int predict(feature_type const* features, double* scores = nullptr, int tree_to_
 	for(int k = 0; k < label_count; ++k)
 		sum_posterior_mean[k] /= tree_used;
 
+	//If *scores* is not null, then the function will also return the scores it found for each label.
+	if(scores != nullptr)
+		for(int k = 0; k < label_count; ++k)
+			scores[k] = sum_posterior_mean[k];
+
 	//Finally, we look for the best label
 	return Utils::index_max(sum_posterior_mean, label_count);
 }
diff --git a/src/mondrian_unbound.hpp b/src/mondrian_unbound.hpp
index c50507d..a39f971 100644
--- a/src/mondrian_unbound.hpp
+++ b/src/mondrian_unbound.hpp
@@ -471,6 +471,7 @@ class MondrianForestUnbound{
 	 * Predict the label of the data point.
 	 * Return the most likely label.
 	 * @param features The features of the data point.
+	 * @param scores The score of each label.
 	 */
 	int predict(feature_type const* features, double* scores = nullptr){
 		//The posterior mean of the forest will be the average posterior means over all trees
@@ -494,6 +495,10 @@ class MondrianForestUnbound{
 			if(sum_posterior_mean[i] > sum_posterior_mean[best])
 				best = i;
 		}
+		//If *scores* is not null, then the function will also return the scores it found for each label.
+		if(scores != nullptr)
+			for(int k = 0; k < label_count; ++k)
+				scores[k] = sum_posterior_mean[k];
 		return best;
 	}
 	~MondrianForestUnbound(){
-- 
2.43.0


From 157b952edd47131365144790f83d8f7f6af4b226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:28 +0000
Subject: [PATCH 31/46] fix: Mondrian node copy keeps the parent

The parent of a copied node was uninitialised.
---
 src/mondrian.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mondrian.hpp b/src/mondrian.hpp
index 2383993..6f73d99 100644
--- a/src/mondrian.hpp
+++ b/src/mondrian.hpp
@@ -53,6 +53,7 @@ class MondrianForest{
 			split_value = src.split_value;
 			child_left = src.child_left;
 			child_right = src.child_right;
+			parent = src.parent;
 			tau = src.tau;
 			for(int i = 0; i < label_count; ++i)
 				counters[i] = src.counters[i];
-- 
2.43.0


From d8f23fce8caddb623a8e59228273836a7ae07e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:32 +0000
Subject: [PATCH 32/46] fix: Mondrian forest discount decreases with the time
 between nodes

The exponent had the wrong sign.
---
 src/mondrian.hpp         | 2 +-
 src/mondrian_coarse.hpp  | 2 +-
 src/mondrian_unbound.hpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mondrian.hpp b/src/mondrian.hpp
index 6f73d99..43ebda9 100644
--- a/src/mondrian.hpp
+++ b/src/mondrian.hpp
@@ -309,7 +309,7 @@ class MondrianForest{
 	void compute_posterior_mean(Node const& node, double *posterior_mean) const{
 		//posterior_mean start with the parent posterior_mean and the function updates to the current node
 		double const parent_tau = node.parent >= 0 ? nodes[node.parent].tau : 0; //The tau value of the parent of the root is 0
-		double const node_discount = func::exp(discount_factor * (node.tau - parent_tau));
+		double const node_discount = func::exp(-discount_factor * (node.tau - parent_tau));
 		double sum_counters = 0;
 		double sum_tab = 0;
 		double tab[label_count];
diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index 32e5fa2..c9a517f 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -2078,7 +2078,7 @@ bool train_tree(feature_type const* features, int const label, int const tree_id
 void compute_posterior_mean(Node const& node, double *posterior_mean) const{
 	//posterior_mean start with the parent posterior_mean and the function updates to the current node
 	double const parent_tau = node.parent >= 0 ? nodes()[node.parent].tau : 0; //The tau value of the parent of the root is 0
-	double const node_discount = func::exp(discount_factor * (node.tau - parent_tau));
+	double const node_discount = func::exp(-discount_factor * (node.tau - parent_tau));
 	double sum_counters = 0;
 	double sum_tab = 0;
 	double tab[label_count];
diff --git a/src/mondrian_unbound.hpp b/src/mondrian_unbound.hpp
index a39f971..0e5f3dd 100644
--- a/src/mondrian_unbound.hpp
+++ b/src/mondrian_unbound.hpp
@@ -90,7 +90,7 @@ class MondrianForestUnbound{
 	void compute_posterior_mean(double *posterior_mean, double const discount_factor) const{
 		//posterior_mean start with the parent posterior_mean and the function updates to the current node
 		double const parent_tau = this->parent != nullptr ? this->parent->tau : 0; //The tau value of the parent of the root is 0
-		double const node_discount = func::exp(discount_factor * (this->tau - parent_tau));
+		double const node_discount = func::exp(-discount_factor * (this->tau - parent_tau));
 		double sum_counters = 0;
 		double sum_tab = 0;
 		double tab[label_count];
-- 
2.43.0


From 221b0562b7de890961395b193c964f9eed2a191d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:35 +0000
Subject: [PATCH 33/46] fix: Mondrian forest smooths labels a node has not seen

Their posterior mean was left as the parent's, so means did not sum to one.
---
 src/mondrian.hpp         | 6 +++---
 src/mondrian_coarse.hpp  | 6 +++---
 src/mondrian_unbound.hpp | 9 ++++-----
 3 files changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/mondrian.hpp b/src/mondrian.hpp
index 43ebda9..d9e3166 100644
--- a/src/mondrian.hpp
+++ b/src/mondrian.hpp
@@ -319,9 +319,9 @@ class MondrianForest{
 			tab[i] = Utils::min(node.counters[i], 1);
 			sum_tab += tab[i];
 		}
-		//For each label with a counter higher than zero, compute the posterior mean. Otherwise it is simply the posterior mean of the parent
-		for(int i = 0; i < label_count; ++i){
-			if(node.counters[i] > 0){
+		//If the node has seen data points, compute the posterior mean of each label. Otherwise it is simply the posterior mean of the parent
+		if(sum_counters > 0){
+			for(int i = 0; i < label_count; ++i){
 				double const a = node.counters[i] - node_discount * tab[i];
 				double const b = node_discount * sum_tab * posterior_mean[i];
 				posterior_mean[i] = (a / sum_counters) + (b /sum_counters);
diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index c9a517f..625e4f4 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -2088,9 +2088,9 @@ void compute_posterior_mean(Node const& node, double *posterior_mean) const{
 		tab[i] = Utils::min(node.counters[i], 1);
 		sum_tab += tab[i];
 	}
-	//For each label with a counter higher than zero, compute the posterior mean. Otherwise it is simply the posterior mean of the parent
-	for(int i = 0; i < label_count; ++i){
-		if(node.counters[i] > 0){
+	//If the node has seen data points, compute the posterior mean of each label. Otherwise it is simply the posterior mean of the parent
+	if(sum_counters > 0){
+		for(int i = 0; i < label_count; ++i){
 			double const a = node.counters[i] - node_discount * tab[i];
 			double const b = node_discount * sum_tab * posterior_mean[i];
 			posterior_mean[i] = (a / sum_counters) + (b /sum_counters);
diff --git a/src/mondrian_unbound.hpp b/src/mondrian_unbound.hpp
index 0e5f3dd..9e778f7 100644
--- a/src/mondrian_unbound.hpp
+++ b/src/mondrian_unbound.hpp
@@ -101,11 +101,10 @@ class MondrianForestUnbound{
 			tab[i] = Utils::min(ci, static_cast<double>(1));
 			sum_tab += tab[i];
 		}
-		//For each label with a counter higher than zero, compute the posterior mean. Otherwise it is simply the posterior mean of the parent
-		for(int i = 0; i < label_count; ++i){
-			long long int ci = this->get_counters(i);
-			if(ci > 0){
-				double const c = static_cast<double>(ci);
+		//If the node has seen data points, compute the posterior mean of each label. Otherwise it is simply the posterior mean of the parent
+		if(sum_counters > 0){
+			for(int i = 0; i < label_count; ++i){
+				double const c = static_cast<double>(this->get_counters(i));
 				double const a = c - node_discount * tab[i];
 				double const b = node_discount * sum_tab * posterior_mean[i];
 				posterior_mean[i] = (a / sum_counters) + (b /sum_counters);
-- 
2.43.0


From 813c040c718d8aefa846ede8f9cd11ee45044df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:39 +0000
Subject: [PATCH 34/46] fix: Mondrian forest measures the branching probability
 from the parent

Delta always used the time of the root's parent.
---
 src/mondrian.hpp         | 1 +
 src/mondrian_coarse.hpp  | 1 +
 src/mondrian_unbound.hpp | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/mondrian.hpp b/src/mondrian.hpp
index d9e3166..d42cdf6 100644
--- a/src/mondrian.hpp
+++ b/src/mondrian.hpp
@@ -388,6 +388,7 @@ class MondrianForest{
 				break;
 			}
 			probability_not_separated_yet *= (1 - probability_of_branching);
+			parent_tau = current_node.tau;
 
 			//Otherwise, the child is picked based on the split of the node
 			if(features[current_node.split_dimension] <= current_node.split_value)
diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index 625e4f4..71f877b 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -2161,6 +2161,7 @@ void predict_tree(feature_type const* features, int const tree_id, double* poste
 			break;
 		}
 		probability_not_separated_yet *= (1 - probability_of_branching);
+		parent_tau = current_node.tau;
 
 		//Otherwise, the child is picked based on the split of the node
 		if(features[current_node.split_dimension] <= current_node.split_value)
diff --git a/src/mondrian_unbound.hpp b/src/mondrian_unbound.hpp
index 9e778f7..ac87a8f 100644
--- a/src/mondrian_unbound.hpp
+++ b/src/mondrian_unbound.hpp
@@ -427,6 +427,7 @@ class MondrianForestUnbound{
 			}
 			InternalNode* inode = dynamic_cast<InternalNode*>(current_node);
 			probability_not_separated_yet *= (1 - probability_of_branching);
+			parent_tau = current_node->tau;
 
 			//Otherwise, the child is picked based on the split of the node
 			if(inode->point_go_left(features))
-- 
2.43.0


From 075df363eaf7af57c8e5e95a1890f3f699562e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:42 +0000
Subject: [PATCH 35/46] fix: Mondrian forest discounts the mean of the
 hypothetical parent

The discount factor was missing from the parent's share.
---
 src/mondrian.hpp         | 2 +-
 src/mondrian_coarse.hpp  | 2 +-
 src/mondrian_unbound.hpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mondrian.hpp b/src/mondrian.hpp
index d42cdf6..270ce07 100644
--- a/src/mondrian.hpp
+++ b/src/mondrian.hpp
@@ -372,7 +372,7 @@ class MondrianForest{
 
 				for(int l = 0; l < label_count; ++l){
 					//posterior_means of the parent of current_node
-					double const posterior_mean = (1/c_sum) * (c[l] - new_node_discount * c[l] + c_sum * posterior_means[l]);
+					double const posterior_mean = (1/c_sum) * (c[l] - new_node_discount * c[l] + new_node_discount * c_sum * posterior_means[l]);
 					//Note that *posterior_mean* is the value for the hypothetical parent
 					smoothed_posterior_means[l] += probability_not_separated_yet * probability_of_branching * posterior_mean;
 				}
diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index 71f877b..a73cea6 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -2144,7 +2144,7 @@ void predict_tree(feature_type const* features, int const tree_id, double* poste
 
 			for(int l = 0; l < label_count; ++l){
 				//posterior_means of the parent of current_node
-				double const posterior_mean = (1/c_sum) * (c[l] - new_node_discount * c[l] + c_sum * posterior_means[l]);
+				double const posterior_mean = (1/c_sum) * (c[l] - new_node_discount * c[l] + new_node_discount * c_sum * posterior_means[l]);
 				//Note that *posterior_mean* is the value for the hypothetical parent
 				smoothed_posterior_means[l] += probability_not_separated_yet * probability_of_branching * posterior_mean;
 			}
diff --git a/src/mondrian_unbound.hpp b/src/mondrian_unbound.hpp
index ac87a8f..c9675a4 100644
--- a/src/mondrian_unbound.hpp
+++ b/src/mondrian_unbound.hpp
@@ -410,7 +410,7 @@ class MondrianForestUnbound{
 
 				for(int l = 0; l < label_count; ++l){
 					//posterior_means of the parent of current_node
-					double const posterior_mean = (1/c_sum) * (c[l] - new_node_discount * c[l] + c_sum * posterior_means[l]);
+					double const posterior_mean = (1/c_sum) * (c[l] - new_node_discount * c[l] + new_node_discount * c_sum * posterior_means[l]);
 					//Note that *posterior_mean* is the value for the hypothetical parent
 					smoothed_posterior_means[l] += probability_not_separated_yet * probability_of_branching * posterior_mean;
 				}
-- 
2.43.0


From ded59a3a61910cf4093851b30ca23176fa92dc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:41 +0000
Subject: [PATCH 36/46] fix: coarse Mondrian forest learns when there is no
 tree extension

EXTEND_NONE never learned: it now stops once the memory is full.
---
 src/mondrian_coarse.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index a73cea6..18e652c 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -2055,10 +2055,10 @@ bool train_tree(feature_type const* features, int const label, int const tree_id
 		else if(fe_split_trigger == SPLIT_TRIGGER_SFE)
 			summy = count_fe_down(base.root, features);
 
-		if(extend_type == EXTEND_ORIGINAL)
-			extend_block0(root_id, tree_id, features, label);
-		else if(extend_type == EXTEND_NONE && node_available <= 2)
+		if(extend_type == EXTEND_NONE && node_available <= 2) //Stop learning when the memory is full
 			ret = false;
+		else if(extend_type == EXTEND_ORIGINAL || extend_type == EXTEND_NONE)
+			extend_block0(root_id, tree_id, features, label);
 		else if(extend_type == EXTEND_PARTIAL_UPDATE)
 			extend_block2(root_id, tree_id, features, label);
 		else if(extend_type == EXTEND_GHOST)
-- 
2.43.0


From 45323e25a0fcca714266fa6a0a3821b69300f87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:44 +0000
Subject: [PATCH 37/46] fix: coarse Mondrian counter-no-update extension counts
 a point once

After a split, the point was counted again in a leaf.
---
 src/mondrian_coarse.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index 18e652c..dbfb9dc 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -778,6 +778,7 @@ void extend_block3(int const node_id, int const tree_id, feature_type const* fea
 		}
 
 		sample_block(new_sibling, features, label);
+		return; //The data point is in its own leaf
 	}
 	else if(E < 0 || parent_tau + E > node.tau){ //Otherwise, just update the box
 		//update lower bound and upper bound of this node
-- 
2.43.0


From 5e9774b8dcc988218d0b9648ca0377c106af1760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:47 +0000
Subject: [PATCH 38/46] fix: coarse Mondrian ghost extension updates the counts
 of the whole path

The walk up stopped before node 0 and started at -1 on an empty tree.
---
 src/mondrian_coarse.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index dbfb9dc..bcb8e37 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -2197,9 +2197,10 @@ int get_leaf(int const tree_id, feature_type const* features) const{
  */
 void update_posterior_count(int const tree_id, feature_type const* features, int const label){
 	int node_id = get_leaf(tree_id, features);
-	int const leaf_id = node_id;
+	if(node_id < 0) //The tree is empty
+		return;
 	node_id = nodes()[node_id].parent;
-	while(node_id > 0 && node_id < node_count){
+	while(node_id >= 0 && node_id < node_count){
 		Node& node = nodes()[node_id];
 		int const c_left = Utils::min(1, nodes()[node.child_left].counters[label]);
 		int const c_right = Utils::min(1, nodes()[node.child_right].counters[label]);
-- 
2.43.0


From 038f99e244977f19ffbd581b6943b8847a494ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:50 +0000
Subject: [PATCH 39/46] fix: coarse Mondrian tree size starts at zero

It was read uninitialised by the size-limited managements.
---
 src/mondrian_coarse.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index bcb8e37..4bbfcf4 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -210,6 +210,7 @@ struct TreeBase{
 	}
 	void reset(int const node_limit=1){
 		root = EMPTY_ROOT;
+		size = 0;
 		node_count_limit = node_limit;
 		statistics.reset();
 		sum_contribution = 0;
-- 
2.43.0


From 1dd05f11b3dbe8434e6385f2d99fcf17525ff82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:52 +0000
Subject: [PATCH 40/46] fix: coarse Mondrian barycenter sums start at zero

sum_features was read uninitialised.
---
 src/mondrian_coarse.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index 4bbfcf4..9356875 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -2891,6 +2891,8 @@ CoarseMondrianForest(double const lifetime, double const base_measure, double co
 			tree_bases()[i].reset(node_count);
 	for(int i = 0; i < node_count; ++i)
 		nodes()[i].reset();
+	for(int i = 0; i < feature_count; ++i)
+		sum_features[i] = 0;
 #ifdef DEBUG
 	cout << "Tree Count = " << this->tree_count << endl;
 	cout << "Node Count = " << this->node_count << endl;
-- 
2.43.0


From 2ef00311c1bbe1d05804feeb935f71b5e5ea0ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:55 +0000
Subject: [PATCH 41/46] fix: coarse Mondrian node copy keeps its parent and
 scores

They were left uninitialised.
---
 src/mondrian_coarse.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index 9356875..c2a080d 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -66,7 +66,10 @@ struct MondrianNode{
 		split_value = src.split_value;
 		child_left = src.child_left;
 		child_right = src.child_right;
+		parent = src.parent;
 		tau = src.tau;
+		forced_extend = src.forced_extend;
+		fading_score = src.fading_score;
 		for(int i = 0; i < label_count; ++i)
 			counters[i] = src.counters[i];
 		for(int i = 0; i < feature_count; ++i){
@@ -82,6 +85,8 @@ struct MondrianNode{
 			child_right = node.child_right;
 			parent = node.parent;
 			tau = node.tau;
+			forced_extend = node.forced_extend;
+			fading_score = node.fading_score;
 			for(int i = 0; i < feature_count; ++i){
 				bound_lower[i] = node.bound_lower[i];
 				bound_upper[i] = node.bound_upper[i];
-- 
2.43.0


From 81d22162baf9d2b9afb021524528c7e626af89a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:59 +0000
Subject: [PATCH 42/46] fix: coarse Mondrian forced split counts each leaf on
 its own side

count_sides swapped the leaves entirely on the left and on the right.
---
 src/mondrian_coarse.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index c2a080d..d15ed10 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -1296,9 +1296,9 @@ int count_sides(int const start_id, int const split_dimension, double const spli
 				count_left += left;
 				count_right += right;
 			}
-			else if(split_value <= lower)
-				count_left += count;
 			else if(split_value >= upper)
+				count_left += count;
+			else
 				count_right += count;
 
 			if(node_id == start_id)
-- 
2.43.0


From 27d34a4d88ad66bb6be419159a7c9197214ceb2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:02 +0000
Subject: [PATCH 43/46] fix: coarse Mondrian forced split keeps the number of
 points

Both parts of a counter were rounded, and a box with no extent gave 0/0.
---
 src/mondrian_coarse.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index d15ed10..dc1205d 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -1486,16 +1486,17 @@ int adjust_counters(int const start_id, int split_dimension, double split_value,
 			//Compute size of box
 			double const max_value = node.bound_upper[split_dimension] - node.bound_lower[split_dimension];
 			//Get the percentage on the left (below the split value)
-			double percentage = Utils::min(Utils::max((split_value - node.bound_lower[split_dimension]) / max_value, 0.0), 1.0);
+			double percentage;
+			if(max_value > 0)
+				percentage = Utils::min(Utils::max((split_value - node.bound_lower[split_dimension]) / max_value, 0.0), 1.0);
+			else //The box has no extent, it is entirely on one side
+				percentage = node.bound_upper[split_dimension] <= split_value ? 1.0 : 0.0;
 			//If this sub-tree is not on the left, invert percentage
 			if(!discharge_left)
 				percentage = 1 - percentage;
 			for(int i = 0; i < label_count; ++i){
 				int counter_out = Utils::round(static_cast<double>(node.counters[i]) * percentage);
-				int counter_in = Utils::round(static_cast<double>(node.counters[i]) * (1 - percentage));
-				int const err = node.counters[i] - counter_in - counter_out;
-				if(err != 0)
-					cout << "Error counters" << endl;
+				int counter_in = node.counters[i] - counter_out;
 				to_remove[i] += counter_out;
 				node.counters[i] = counter_in;
 			}
-- 
2.43.0


From 36c6e58234ba86bc3cd68ea2f50f2b68abc820c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:04 +0000
Subject: [PATCH 44/46] fix: coarse Mondrian forced split keeps the leaves of a
 single value

Leaves with a box of no extent were taken for discharged ones and dropped with their counters, and the traversal could leave its stack.
---
 src/mondrian_coarse.hpp | 188 +++++++++++++---------------------------
 1 file changed, 60 insertions(+), 128 deletions(-)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index dc1205d..baa8e7c 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -1089,7 +1089,7 @@ void split_node(int const node_id, int const tree_id, feature_type const* featur
 	for(int i = 0; i < label_count; ++i)
 		new_sibling.counters[i] += to_remove[i];
 	//Adjust the boxes' bound and reshape the tree is needed
-	adjust_boxes(node_id, dimension, split_value, subtree_on_left, tree_id);
+	adjust_boxes(node_id, dimension, split_value, subtree_on_left);
 
 	//Propage the datapoint on the right side of the new split
 	if(features[dimension] > split_value){
@@ -1227,7 +1227,7 @@ bool split_barycenter(int const node_id, int const tree_id, feature_type const*
 	for(int i = 0; i < label_count; ++i)
 		new_sibling.counters[i] += to_remove[i];
 	//Adjust the boxes' bound and reshape the tree is needed
-	adjust_boxes(node_id, dimension, split_value, subtree_on_left, tree_id);
+	adjust_boxes(node_id, dimension, split_value, subtree_on_left);
 
 	//Propage the datapoint on the right side of the new split
 	if(features[dimension] > split_value){
@@ -1312,135 +1312,67 @@ int count_sides(int const start_id, int const split_dimension, double const spli
 		return -1;
 	return 0;
 }
-template<int max_stack_size=100>
-int adjust_boxes(int const start_id, int const split_dimension, double const split_value, bool const subtree_on_left, int const tree_id){
-	//Initialize an array to keep track of where we have to go at each tree level.
-	//The max depth expected is MAX_DEPTH.
-	int stack[max_stack_size];
-	for(int i = 0; i < max_stack_size; ++i)
-		stack[i] = -1;
-
-	int node_id = start_id;
-	int depth = 0;
-	//a for loop instead of a while to avoid infinite loops. Since we don't expect to do more turn than node_count
-	//*i* count the number of node deleted.
-	int i = 0;
-	while(i < node_count && node_id >= 0){
-		Node& node = nodes()[node_id];
-		if(!node.is_leaf()){  //Internal node
-			if (stack[depth] == -1){ //Go right
-				if(subtree_on_left){
-					if(node.bound_upper[split_dimension] > split_value)
-						node.bound_upper[split_dimension] = split_value;
-					if(node.bound_lower[split_dimension] > split_value)
-						node.bound_lower[split_dimension] = split_value;
-				}
-				else{
-					if(node.bound_upper[split_dimension] < split_value)
-						node.bound_upper[split_dimension] = split_value;
-					if(node.bound_lower[split_dimension] < split_value)
-						node.bound_lower[split_dimension] = split_value;
-				}
-				if(node.bound_upper[split_dimension] - node.bound_lower[split_dimension] == 0){ //This box is zero, let's go up
-					depth -= 1;
-					node_id = node.parent;
-					node_reset(node.child_right);
-					node_reset(node.child_left);
-					//NOTE the start_id node shouldn't be at zero.
-				}
-				else{ //Go right
-					stack[depth] = 0;
-					depth += 1;
-					node_id = node.child_right;
-				}
-			}
-			else if (stack[depth] == 0){ //Go left
-				stack[depth] = 1;
-				depth += 1;
-				node_id = node.child_left;
-			}
-			else if (stack[depth] == 1){ //Go up
-				stack[depth] = -1; //Reset to -1
-				depth -= 1;
-				i += 1;
-
-				Node const& child_left = nodes()[node.child_left];
-				Node const& child_right = nodes()[node.child_right];
-				int const left_zeroed = (child_left.bound_upper[split_dimension] - child_left.bound_lower[split_dimension] == 0);
-				int const right_zeroed = (child_right.bound_upper[split_dimension] - child_right.bound_lower[split_dimension] == 0);
-				bool const is_root = (node.parent < 0);
-				bool const is_starting = (node_id == start_id);
-				//NOTE either left or right is zeroed. If both are, then we stop going down at that node before
-				int replacer_id = -1, other_id = -1;
-				if(left_zeroed){ //replace current node with right
-					replacer_id = node.child_right;
-					other_id = node.child_left;
-				}
-				else if(right_zeroed){ //replace current node with left
-					replacer_id = node.child_left;
-					other_id = node.child_right;
-				}
-
-				if(replacer_id != -1){
-					Node& replacer = nodes()[replacer_id];
-					if(is_root){ //The root is replaced by one of the children
-						tree_bases()[tree_id].root = replacer_id;
-						nodes()[other_id].reset();
-						node.reset();
-						nodes()[replacer_id].parent = -1;
-						node_available += 2;
-						break;
-					}
-					else{ //Replace the current node in the parent 's children
-						Node& parent = nodes()[node.parent];
-						if(parent.child_left == node_id)
-							parent.child_left = replacer_id;
-						else
-							parent.child_right = replacer_id;
-						replacer.parent = node.parent;
-					}
-					//Set the id to keep exploring the tree before the reset
-					node_id = node.parent;
-					//reset other_id and node
-					nodes()[other_id].reset();
-					node.reset();
-					node_available += 2;
-					if(is_starting)
-						break;
-				}
-				else{
-					if(node_id == start_id)
-						break;
-					node_id = node.parent;
-				}
-			}
+//Restrict a sub-tree to one side of a split: the leaves on the other side are removed, a node that loses one of its children
+//is replaced by the other one, and the remaining boxes are cut at *split_value*.
+//Return the root of what remains, EMPTY_NODE if nothing remains.
+int clip_subtree(int const node_id, int const split_dimension, double const split_value, bool const keep_left){
+	Node& node = nodes()[node_id];
+	if(node.is_leaf()){
+		double const lower = node.bound_lower[split_dimension];
+		double const upper = node.bound_upper[split_dimension];
+		if(keep_left ? (lower >= split_value && upper > split_value) : (upper <= split_value)){
+			node.reset();
+			node_available += 1;
+			return Node::EMPTY_NODE;
 		}
-		else{ //Leaf
-			stack[depth] = -1; //Reset to -1
-			depth -= 1;
-			i += 1;
-			if(subtree_on_left){
-				if(node.bound_upper[split_dimension] > split_value)
-					node.bound_upper[split_dimension] = split_value;
-				if(node.bound_lower[split_dimension] > split_value)
-					node.bound_lower[split_dimension] = split_value;
-			}
-			else{
-				if(node.bound_upper[split_dimension] < split_value)
-					node.bound_upper[split_dimension] = split_value;
-				if(node.bound_lower[split_dimension] < split_value)
-					node.bound_lower[split_dimension] = split_value;
-			}
-			if(node_id == start_id)
-				break;
-			node_id = node.parent;
+	}
+	else{
+		int const left_id = clip_subtree(node.child_left, split_dimension, split_value, keep_left);
+		int const right_id = clip_subtree(node.child_right, split_dimension, split_value, keep_left);
+		if(left_id == Node::EMPTY_NODE || right_id == Node::EMPTY_NODE){
+			node.reset();
+			node_available += 1;
+			return left_id == Node::EMPTY_NODE ? right_id : left_id;
 		}
-		if(depth >= max_stack_size)
-			return -1;
+		node.child_left = left_id;
+		node.child_right = right_id;
+		nodes()[left_id].parent = node_id;
+		nodes()[right_id].parent = node_id;
 	}
-	if(depth != -1)
-		return -1;
-	return 0;
+	if(keep_left){
+		node.bound_lower[split_dimension] = Utils::min(node.bound_lower[split_dimension], split_value);
+		node.bound_upper[split_dimension] = Utils::min(node.bound_upper[split_dimension], split_value);
+	}
+	else{
+		node.bound_lower[split_dimension] = Utils::max(node.bound_lower[split_dimension], split_value);
+		node.bound_upper[split_dimension] = Utils::max(node.bound_upper[split_dimension], split_value);
+	}
+	return node_id;
+}
+//Restrict the sub-tree *start_id*, that is the child of a new split, to its side of this split.
+void adjust_boxes(int const start_id, int const split_dimension, double const split_value, bool const subtree_on_left){
+	if(nodes()[start_id].is_leaf()) //Its box is already cut
+		return;
+	int const parent_id = nodes()[start_id].parent;
+	Node& parent = nodes()[parent_id];
+	Node& sibling = nodes()[subtree_on_left ? parent.child_right : parent.child_left];
+	int remaining_id = clip_subtree(start_id, split_dimension, split_value, subtree_on_left);
+	if(remaining_id == Node::EMPTY_NODE){ //Everything is on the other side: an empty leaf takes the place of the sub-tree
+		remaining_id = available_node();
+		node_available -= 1;
+		Node& leaf = nodes()[remaining_id];
+		leaf.tau = lifetime;
+		for(int i = 0; i < feature_count; ++i){
+			leaf.bound_lower[i] = sibling.bound_lower[i];
+			leaf.bound_upper[i] = sibling.bound_upper[i];
+		}
+		leaf.bound_lower[split_dimension] = leaf.bound_upper[split_dimension] = split_value;
+	}
+	if(subtree_on_left)
+		parent.child_left = remaining_id;
+	else
+		parent.child_right = remaining_id;
+	nodes()[remaining_id].parent = parent_id;
 }
 template<int max_stack_size=100>
 int adjust_counters(int const start_id, int split_dimension, double split_value, bool discharge_left, int* to_remove){
-- 
2.43.0


From e43de53b616e45e4529606463b1fdc8297f3c64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:07 +0000
Subject: [PATCH 45/46] fix: coarse Mondrian forced split needs a box with some
 extent

A leaf holding one value gave 0/0 probabilities; it is extended instead.
---
 src/mondrian_coarse.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index baa8e7c..ddab0bb 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -845,6 +845,10 @@ void extend_block4(int const node_id, int const tree_id, feature_type const* fea
 
 	if(E >= 0 && parent_tau + E < node.tau && node_available >= 2 && !pause_expension){//Introduce a new parent and a new sibling
 		bool split_instead = false;
+		//A box with no extent cannot be split
+		double extent = 0;
+		for(int i = 0; i < feature_count; ++i)
+			extent += node.bound_upper[i] - node.bound_lower[i];
 		//If forced_extend_sum is higher than 0, then we consider spliting
 		if(forced_extend_sum > 0){
 			double const probability = static_cast<double>(node.forced_extend) / static_cast<double>(forced_extend_sum);
@@ -854,10 +858,10 @@ void extend_block4(int const node_id, int const tree_id, feature_type const* fea
 		if(fe_split_trigger == SPLIT_TRIGGER_NONE){
 			extend_node(node_id, tree_id, features, label, parent_id, parent_tau, probabilities, E, sum);
 		}
-		else if(fe_split_trigger == SPLIT_TRIGGER_POSITIVE && node.forced_extend > 0){
+		else if(fe_split_trigger == SPLIT_TRIGGER_POSITIVE && node.forced_extend > 0 && extent > 0){
 			split_node(node_id, tree_id, features, label, parent_id, parent_tau, probabilities, E);
 		}
-		else if((fe_split_trigger == SPLIT_TRIGGER_TOTAL || fe_split_trigger == SPLIT_TRIGGER_SFE) && split_instead){
+		else if((fe_split_trigger == SPLIT_TRIGGER_TOTAL || fe_split_trigger == SPLIT_TRIGGER_SFE) && split_instead && extent > 0){
 			split_node(node_id, tree_id, features, label, parent_id, parent_tau, probabilities, E);
 		}
 		else{
-- 
2.43.0


From 8181279df14c471c3c2a64c3635f11d74d2b9f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:50 +0000
Subject: [PATCH 46/46] fix: coarse Mondrian proportional distribution follows
 the part that is kept

The share of the left part was used on both sides, and an empty sub-tree gave 0/0.
---
 src/mondrian_coarse.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index ddab0bb..ad22156 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -1076,7 +1076,8 @@ void split_node(int const node_id, int const tree_id, feature_type const* featur
 	}
 	else if(fe_distribution == FE_DISTRIBUTION_PROPORTIONAL){
 		double const sum_count = static_cast<double>(count_left + count_right);
-		double const ratio_fe = subtree_on_left ? static_cast<double>(count_left)/sum_count : static_cast<double>(count_left)/sum_count;
+		double const kept_count = static_cast<double>(subtree_on_left ? count_left : count_right);
+		double const ratio_fe = sum_count > 0 ? kept_count/sum_count : 0.5;
 		new_sibling.forced_extend = (1-ratio_fe) * node.forced_extend;
 		node.forced_extend *= ratio_fe;
 	}
@@ -1214,7 +1215,8 @@ bool split_barycenter(int const node_id, int const tree_id, feature_type const*
 	}
 	else if(fe_distribution == FE_DISTRIBUTION_PROPORTIONAL){
 		double const sum_count = static_cast<double>(count_left + count_right);
-		double const ratio_fe = subtree_on_left ? static_cast<double>(count_left)/sum_count : static_cast<double>(count_left)/sum_count;
+		double const kept_count = static_cast<double>(subtree_on_left ? count_left : count_right);
+		double const ratio_fe = sum_count > 0 ? kept_count/sum_count : 0.5;
 		new_sibling.forced_extend = (1-ratio_fe) * node.forced_extend;
 		node.forced_extend *= ratio_fe;
 	}
-- 
2.43.0


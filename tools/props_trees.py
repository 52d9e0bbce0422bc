prop('T01', 'The Hoeffding tree grows by the Hoeffding bound on its leaf statistics',
 'Every point trains the one leaf it is routed to: the leaf counts it per feature, bin and label, on the same side of each split limit as routing would send it. The information gain of a candidate is the entropy its split removes. A leaf splits, exactly when the mean gain of its best candidate exceeds that of the second best by the Hoeffding bound, along the feature and at the limit of the best candidate, and its two children start with the part of its box on their side. The scores predicted are the shares of the labels counted in the leaf of the query (uniform when it is empty), they sum to one, and predicting changes nothing.',
 ['inputs', 'histories', 'configurations'], 'every stream of a bounded number of points (values from small sets, or any real), labels, queries, several numbers of features, bins and labels',
 'Tests check the accuracy on one data set and the split of one hand-made tree; a wrong statistic only changes which split is chosen, and when.', ['hoeffding_tree.hpp'],
 [('leaf statistics', 'hoeffding_tree.hpp Node::train'), ('information gain', 'hoeffding_tree.hpp Node::compute_information_gain'), ('split', 'hoeffding_tree.hpp HoeffdingTree::evaluate_split, split'), ('prediction', 'hoeffding_tree.hpp Node::predict')], SX,
 'up to 7 points of 1-2 features, 2-3 bins, 2-3 labels; ties with the bound itself are excluded; ' + RE + TB)
prop('T02', 'A Hoeffding tree without room for a split keeps working',
 'The tree and the counters of its leaves stay inside the memory given to it and never share it. When a split is due and there is no room for both children and their counters, training reports it, the tree keeps its shape and goes on counting and predicting as before.',
 ['inputs', 'histories', 'configurations'], 'every stream up to the bound in trees with room for 1, 3 or 5 nodes, with and without spare bytes', 'Tests run trees with ample memory, and the failure path needs a due split in a full tree.', ['hoeffding_tree.hpp'],
 [('allocation', 'hoeffding_tree.hpp HoeffdingTree::new_node, split'), ('counters', 'hoeffding_tree.hpp counters of a node')], SX, 'as T01')
MO = ['mondrian.hpp', 'mondrian_unbound.hpp']
prop('T03', 'Mondrian forests grow by the Mondrian process',
 'For every stream and every draw each tree is the one the Mondrian process gives: where a point lies outside the box of a node and the exponential variate falls before the time of the node, a new parent (with the enlarged box, at that time) and a leaf of the point are inserted, split along a dimension chosen by the distance to the box and at a place chosen uniformly in the gap; otherwise the box grows and the point goes on to its side, to be counted in its leaf. No other random number is drawn, none when predicting, and nothing else changes.',
 ['inputs', 'histories'], 'every stream of up to 4 points from small sets of values, every label, every uniform draw, exponential variates from sets or any on a grid; both the bounded and the unbounded forest', 'There are no tests of the Mondrian forests; their behaviour is random and only visible through predictions.', MO,
 [('growth', 'mondrian.hpp MondrianForest::extend_block; mondrian_unbound.hpp MondrianForestUnbound::extend_block'), ('counting', 'mondrian.hpp update_posterior_count; mondrian_unbound.hpp update_counters')], SX,
 'the tree is observed through predictions (any query) and the draws; values of features from small sets; ' + RE + TB)
prop('T04', 'Mondrian forests predict the smoothed posterior mean',
 'The score of a label is the average over the trees of the hierarchical posterior mean of the Mondrian forest paper (labels discounted towards the parent by the time between the nodes, the probability of branching off before each node, the base measure at the root), it lies between 0 and 1, the scores sum to one when the base measure does, the prediction is the first label of highest score, and predicting has no effect on later predictions. An untrained forest predicts from the base measure.',
 ['inputs', 'histories'], 'as T03, any query, several discounts, label counts and base measures', 'As T03.', MO,
 [('prediction', 'mondrian.hpp predict_tree, predict; mondrian_unbound.hpp'), ('posterior mean', 'mondrian.hpp compute_posterior_mean; mondrian_unbound.hpp')], SX, 'as T03')
prop('T05', 'A Mondrian forest with bounded memory stays inside it, and copies are whole',
 'The bounded forest never uses more nodes than its memory has; when there is no room for a split the boxes and counts are updated instead and the forest goes on learning; training fails exactly when some tree has not got a single node. A copy of a bounded forest predicts and trains like the original; an unbounded forest frees all its nodes when it is destroyed.',
 ['inputs', 'histories', 'configurations'], 'streams as in T03 in forests with room for 1 to 5 nodes, 1 or 2 trees', 'As T03.', ['mondrian.hpp'],
 [('allocation', 'mondrian.hpp MondrianForest::available_node, extend_block'), ('roots', 'mondrian.hpp MondrianForest::train_tree'), ('copy', 'mondrian.hpp MondrianForest copy constructor')], SX, 'as T03')
MC = ['mondrian_coarse.hpp']
prop('T06', 'The coarse Mondrian forest is a Mondrian forest while it has memory',
 'With ample memory the coarse forest grows by the Mondrian process and predicts the smoothed posterior mean exactly as the other Mondrian forests do (T03, T04), whether or not the label counts of inner nodes are kept up to date while training; no other random number is drawn, none when predicting.',
 ['inputs', 'histories', 'configurations'], 'every stream of up to 4 points from small sets of values, every label, draw and query; several numbers of trees, features, labels, discounts and base measures; with and without UNBOUND_OPTIMIZE', 'There are no tests of the Mondrian forests.', MC,
 [('growth', 'mondrian_coarse.hpp CoarseMondrianForest::extend_block0'), ('prediction', 'mondrian_coarse.hpp CoarseMondrianForest::predict, compute_posterior_mean')], SX, 'as T03')
prop('T07', 'A coarse Mondrian forest out of memory follows its extension strategy',
 'When there is no room for a split (no two free nodes, or the depth limit), the forest does what its tree extension says and only that: it stops learning and says so (none), enlarges boxes and counts (original), counts without enlarging (ghost), enlarges by the part of the node (partial), counts or not (counter update and no update); every point it learns is counted once, in one leaf of each tree, and predictions stay the posterior mean of the tree so obtained. Training fails exactly when some tree has not got a node or the strategy is to stop.',
 ['inputs', 'histories', 'configurations'], 'streams as T06 in forests with room for 1 to 6 nodes or trees of 2 to 3 levels, 1 or 2 trees, six extension strategies', 'There are no tests of the Mondrian forests.', MC,
 [('strategies', 'mondrian_coarse.hpp CoarseMondrianForest::extend_block0 to extend_block5, train_tree'), ('counting', 'mondrian_coarse.hpp update_posterior_count, sample_block')], SX, 'as T03; the depth limit is only combined with trees of up to 3 levels')
prop('T08', 'Trimming, forced splits and tree management leave the coarse forest whole',
 'Whatever the trimming, the split trigger, the forced-extension distribution, the split helper and the tree management, after every point each tree is a tree: parent and child links agree, no node is shared or lost, boxes are nested, children lie on their side of the split, times increase downwards. Every point is counted in one leaf and splits lose no counts; a forced split moves the smaller part of the points to one new leaf, the larger part keeps most of the forced extensions, and a leaf that holds a single value is only split from a new point; trimming removes one leaf and its parent, with the counts of that leaf only (a leaf of fewest points when trimming by count). Scores lie between 0 and 1 and sum to one, predicting changes nothing and draws no random number, and nothing outside the memory of the forest is touched or read before it is set. A copied node equals the original.',
 ['inputs', 'histories', 'configurations'], 'every point and label after a stream that fills the memory, every trigger with every distribution, both split helpers, three trimmings and three managements', 'There are no tests of the Mondrian forests, and trimming starts after a hundred points in a full memory.', MC,
 [('trimming', 'mondrian_coarse.hpp CoarseMondrianForest::tree_trim, cut_block'), ('splits', 'mondrian_coarse.hpp CoarseMondrianForest::split_node, split_barycenter, count_sides, adjust_counters, adjust_boxes'), ('management', 'mondrian_coarse.hpp tree management, TreeBase'), ('node copy', 'mondrian_coarse.hpp MondrianNode copy constructor and operator=')], SX,
 'one or two symbolic points after a fixed stream; the smaller part is compared up to rounding (four points); the exact share of each half is not decided; boxes are nested when they grow all the way to the points (the default); size limits of the managements are not enforced by the code and not claimed')

# pylint: skip-file
SCH = 'sparsity/keras/pruning_schedule.py'
IMPL = 'sparsity/keras/pruning_impl.py'
PU = 'sparsity/keras/pruning_utils.py'
CALG = 'clustering/keras/clustering_algorithm.py'
CCEN = 'clustering/keras/clustering_centroids.py'
CWR = 'clustering/keras/cluster_wrapper.py'

prop('P01', 'Pruning happens exactly at the scheduled training steps',
     'A constant or polynomial pruning schedule says "prune" at a step exactly when the step is at or after '
     'the begin step, not after the end step (no end when a constant schedule has end -1), and a whole '
     'number of frequency intervals after the begin step. A schedule with a negative begin step, an end '
     'before the begin, a polynomial end of -1, a frequency below 1 or a sparsity outside [0, 1) is rejected '
     'at construction and every other one is accepted. A constant schedule always reports its target sparsity.',
     ['inputs', 'configurations'], 'all integer begin/end/frequency/step values and all sparsities',
     'the tests sample a handful of step values of one or two schedules',
     [SCH], [('window and frequency test', SCH + ':_should_prune_in_step'),
             ('constructor validation', SCH + ':_validate_step/_validate_sparsity')])
prop('P02', 'Polynomial sparsity ramps along the documented curve',
     'The sparsity of a polynomial schedule is final + (initial - final) * (1 - progress)^power with the '
     'progress through [begin, end] clamped to [0, 1]: it equals the initial sparsity up to the begin step and '
     'the final sparsity from the end step on, never leaves the interval between the two, and never moves back '
     'as steps increase. It is a number for every schedule the constructor accepts, including begin == end.',
     ['inputs', 'configurations'], 'all steps, windows, sparsities and positive powers',
     'monotonicity and bounds quantify over all pairs of steps; the tests check three points',
     [SCH], [('decay formula', SCH + ':PolynomialDecay.__call__')])
prop('P03', 'Magnitude masks keep exactly the largest weights the sparsity allows',
     'With 1x1 blocks, updating the masks of a weight of n elements at sparsity s yields a 0/1 mask of the '
     "weight's shape that keeps precisely the elements whose magnitude is at least the k-th largest magnitude, "
     'k = max(round(n*(1-s)), 1), stores that magnitude as threshold, and leaves the weight itself and every '
     'other weight untouched. When the schedule says not to prune, masks and thresholds do not change.',
     ['inputs', 'configurations'], 'all weight values, shapes of rank 1, 2 and 4, sparsities in [0,1)',
     'tests use a few small tensors without ties; the guarantee is over all real tensors and shapes',
     [IMPL], [('mask update', IMPL + ':Pruning._update_mask'), ('scheduling', IMPL + ':conditional_mask_update')])
prop('P04', 'M:N structured sparsity masks keep N-M largest of every group',
     'For m:n sparsity, the mask of a dense or convolutional kernel is cut into consecutive groups of n along '
     'the input dimension (zero padded at the end of every row); in every group the m smallest magnitudes are '
     'masked, so a kept element is never smaller than a masked one of its group, and the weight shape is '
     'preserved. The pattern checker accepts exactly the weights in which every complete group has at least '
     'm zeros.',
     ['inputs', 'configurations'], 'all kernel sizes and values; m:n patterns 2:4, 1:2, 1:4, 3:4, 2:3 and others',
     'padding and grouping depend on all kernel sizes; tests use a few fixed ones',
     [PU], [('mask generation', PU + ':generate_m_by_n_mask'), ('checker', PU + ':is_pruned_m_by_n'),
            ('update', IMPL + ':Pruning._update_mask_sparsity_m_by_n')],
     level='exploration', tech=TECHE, note=NOTE + ' The m:n pairs are listed (six in the quick tier, eight in the thorough one).' + NOTEE +
     ' The checker function loops over numpy data and is checked on bounded sizes only.')
prop('P05', 'Block pruning keeps or drops whole blocks by pooled magnitude',
     'With a block size (bh, bw) and average or max pooling, the mask of a matrix '
     'is constant on every aligned bh x bw block, the last row and column of blocks being '
     'cut at the edge; a block is kept exactly when its pooled magnitude (over the weights it covers) reaches '
     'the k-th largest pooled magnitude, k = max(round(blocks*(1-s)), 1). The mask has the shape of the '
     'weight, and a block size that does not fit the layout is rejected with an error.',
     ['inputs', 'configurations'], 'all matrix sizes and values, several block sizes, both poolings, all sparsities',
     'edge blocks depend on the size of the matrix; tests only use sizes divisible by the block',
     [IMPL, PU], [('block mask', IMPL + ':Pruning._maybe_update_block_mask'), ('pooling', PU + ':factorized_pool'),
                  ('expansion', PU + ':expand_tensor')],
     level='exploration', tech=TECHE, note=NOTE + ' Block sizes are listed (three in the quick tier, five in the thorough one).' + NOTEE +
     ' expand_tensor is discharged for block grids up to 4x4 and used by contract elsewhere.')

prop('C01', 'Clustering replaces every weight by its nearest centroid',
     'The cluster index chosen for a weight names a centroid no farther from it than any other centroid, and the '
     'clustered tensor has the shape of the weight and holds exactly that centroid value at every position. With '
     'per-channel clustering each output channel uses only its own centroids.',
     ['inputs'], 'all weights (any magnitude), shapes of rank 1-4 and centroid sets of any size',
     'tests use hand-picked weights; nearest-centroid is a statement over all pairs',
     [CALG], [('index', CALG + ':get_pulling_indices'), ('lookup', CALG + ':get_clustered_weight')],
     note=NOTE + ' The per-channel loop is unrolled for one to three channels and reported apart as enumerated.')
prop('C02', 'Initial centroids cover the weights, zero is kept when asked for',
     'Centroid initialisation returns exactly N values inside [min(w), max(w)]; linear initialisation spaces '
     'them evenly with both ends included. With sparsity preservation exactly one centroid is zero, the '
     'negative ones come first and the positive ones last, each inside the range of the weights of that sign, the '
     'rest shared in proportion to the counts; an all-zero weight gives the single centroid zero.',
     ['inputs', 'configurations'], 'all weights, all N, linear/random/kmeans++/density initialisation',
     'the proportional split rounds for every possible count pair; tests use two',
     [CCEN], [('intervals', CCEN + ':_calculate_centroids_for_interval'),
              ('zero centroid', CCEN + ':_zero_centroid_initialization')],
     tech=TECHM, note=NOTE + ' kmeans++ sampling is assumed to return rows of its input; density based '
     'initialisation and the per-channel loop are checked on bounded inputs only.')
prop('C03', 'A clustered layer always uses at most N distinct weight values',
     'After every update of a clustering-wrapped layer the wrapped layer sees, for each clusterable weight, '
     'the nearest-centroid lookup of the current original weight, so at most N distinct values (per channel '
     'when clustered per channel). With sparsity preservation, positions that were zero stay zero. Stripping '
     'gives a model with those clustered weights and the same outputs.',
     ['inputs', 'histories', 'configurations'], 'every state of weights and centroids, hence every training history',
     'training histories are unbounded; the tests check the result after one epoch',
     [CWR, 'clustering/keras/cluster.py'],
     [('update step', CWR + ':update_clustered_weights_associations'), ('strip', 'clustering/keras/cluster.py:strip_clustering')],
     tech=TECHM, note=NOTE + ' Whole-model training (also on two replicas) and stripping are checked on bounded samples.')
prop('C04', 'Clustering gradients follow the configured aggregation',
     'The gradient of a centroid is the sum (or, with averaging, the mean over its members, zero for an empty '
     'cluster) of the upstream gradients of the weights assigned to it, and the original weights receive the '
     'upstream gradient unchanged.',
     ['inputs'], 'all upstream gradients, assignments and shapes',
     'tests compare one gradient on one tensor',
     [CALG], [('average', CALG + ':average_centroids_gradient_by_cluster_size'),
              ('pass-through', CALG + ':add_gradient_to_original_weight')],
     tech=TECHM, note=NOTE + ' Automatic differentiation itself is trusted; the end-to-end gradient is compared on bounded inputs.')
prop('C05', 'The clustering wrapper is transparent apart from the weights',
     'Wrapping a layer for clustering keeps its training/inference behaviour, and the wrapper rebuilt from its '
     'configuration has the same settings. Invalid requests (fewer than two clusters, or than three with sparsity '
     'preservation) are rejected.',
     ['inputs', 'configurations'], 'all wrapper settings over a set of layers',
     'settings combine; the tests only build a few',
     [CWR], [('call', CWR + ':ClusterWeights.call'), ('config', CWR + ':ClusterWeights.get_config')],
     tech=TECHM, note=NOTE + ' The wrapped layers are real Keras layers with concrete configurations; the effect of the '
     'training flag inside whole models is checked on bounded inputs only.')
prop('C06', 'Clustering touches exactly the kernels of supported layers',
     'A supported layer offers for clustering exactly its kernels: the kernel of a dense, convolution or locally '
     'connected layer, the embeddings, the pointwise kernel of a separable convolution, kernel and recurrent kernel of '
     'every cell of a recurrent layer in order, the four kernels of attention, and nothing of a depthwise '
     'convolution, a normalisation or a layer without weights. A layer with weights of another class, and a recurrent '
     'layer with another cell, is refused with ValueError.',
     ['configurations'], 'every class of the registry; every recurrent layer of one to three cells',
     'a wrong entry silently leaves a kernel unclustered, or clusters a bias; the tests look at a few layers',
     ['clustering/keras/clustering_registry.py', CWR],
     [('registry', 'clustering/keras/clustering_registry.py:ClusteringRegistry'), ('wrapper', CWR + ':ClusterWeights.__init__')],
     level='exploration', tech=TECHF, note=NOTEF)
TES = 'internal/tensor_encoding/stages/'
TEU = 'internal/tensor_encoding/utils/tf_utils.py'
prop('E01', 'Bit packing is lossless for every width and length',
     'For every width 1..16 and every vector of integers below 2^width held in a float or integer tensor, '
     'encoding with the bit-packing stage and decoding with the original shape gives back the same values, '
     'shape and type. Every packed word is a non-negative integer below 2^28 and there are exactly '
     'ceil(width * n / 28) of them.',
     ['inputs', 'configurations'], 'all widths 1-16, all vector lengths, all values',
     'the packing patterns differ per width and residue of the length; tests cover a few values',
     [TES + 'stages_impl.py', TEU], [('stage', TES + 'stages_impl.py:BitpackingEncodingStage'),
                                     ('packing', TEU + ':pack_into_int/unpack_from_int')],
     note=NOTE + ' In the quick tier the widths whose pattern repeats after 28 values are proved for the lengths '
     'congruent to 0, 1, 14 and 27 modulo 28; the thorough tier proves every length.')
prop('E02', 'Uniform quantisation stays within one quantisation step',
     'Uniform quantisation (whole tensor, per channel, and with shared pseudo-random rounding) encodes every '
     'element as an integer level in [0, 2^bits - 1] and decoding restores the shape with an error of at most '
     'one step of the range in use (half a step for deterministic or shared-random rounding); with a given '
     'range values are clipped to it first. With a given range, decoding a sum of encodings for the total '
     'number of summands equals the sum of the separate decodings.',
     ['inputs', 'configurations'], 'all values, shapes, bit widths 1-16, random draws',
     'the error bound is over all inputs and all random draws; tests sample',
     [TES + 'stages_impl.py', TES + 'research/quantization.py'],
     [('stage', TES + 'stages_impl.py:UniformQuantizationEncodingStage'),
      ('per channel', TES + 'research/quantization.py:PerChannelUniformQuantizationEncodingStage'),
      ('shared randomness', TES + 'research/quantization.py:PRNGUniformQuantizationEncodingStage')])
prop('E03', 'Hadamard and Kashin rotations are lossless',
     'Encoding a vector or a batch of vectors with the randomized Hadamard stage, or with the Kashin stage '
     'without clipping in the last iteration, and decoding with the original shape gives back the input '
     'for every seed; the encoding is a matrix whose row length is a power of two not below the vector '
     'length. The fast Walsh-Hadamard transform is its own inverse and rejects other row lengths.',
     ['inputs', 'configurations'], 'all values, seeds, batch sizes; vector lengths up to 16',
     'losslessness is over all vectors and seeds; tests use random samples of fixed sizes',
     [TES + 'stages_impl.py', TES + 'research/kashin.py', TEU],
     [('Hadamard', TES + 'stages_impl.py:HadamardEncodingStage'),
      ('Kashin', TES + 'research/kashin.py:KashinHadamardEncodingStage'),
      ('transform', TEU + ':fast_walsh_hadamard_transform')],
     level='exploration', tech=TECHE, note=NOTE + NOTEE + ' Vector lengths are concrete (Hadamard 1-9, 13, 16; Kashin 1-5, 7, 1-3 iterations; transform up '
     'to 32); values, number of rows and seeds are symbolic; the values left by clipping are arbitrary.')
prop('E04', 'Simple encoding stages restore what they promise',
     'Identity and flatten stages give the input back with its shape; the integer-difference stage stores the '
     'first value and successive differences and gives the vector back; clipping by value or by norm returns '
     'exactly the clipped input; splitting by small value keeps every element above the threshold and zeroes the '
     'others.',
     ['inputs', 'configurations'], 'all values and shapes of rank 1-4',
     'tests use fixed vectors',
     [TES + 'stages_impl.py', TES + 'research/misc.py', TES + 'research/clipping.py'],
     [('flatten', TES + 'stages_impl.py:FlattenEncodingStage'),
      ('differences', TES + 'research/misc.py:DifferenceBetweenIntegersEncodingStage'),
      ('clipping', TES + 'research/clipping.py')],
     note=NOTE + ' The Euclidean norm of a tensor of symbolic size is an extensional operator.')
prop('E07', 'Generated random signs are always plus or minus one',
     'Every element of a generated sign vector is +1 or -1 for every seed and length, also where the underlying '
     'uniform value is exactly one half.',
     ['inputs'], 'all seeds and lengths',
     'the boundary value occurs once in millions of draws',
     [TEU], [('signs', TEU + ':random_signs')])

# --- pruning, continued ------------------------------------------------------
WRP = 'sparsity/keras/pruning_wrapper.py'
POL = 'sparsity/keras/pruning_policy.py'
prop('P06', 'Pruned weights stay masked through every training history',
     'The masking step multiplies every weight by its own mask and touches no mask or threshold. A training call '
     'of a pruning wrapper advances its step by one, updates masks exactly when the schedule says so for that step '
     '(m:n masks at step 1 only) and lets the layer compute with the masked weights, while an inference call '
     'changes neither step nor masks. The callback starts fresh models at step 0, keeps the step of restored ones, '
     'masks all weights (also in nested models) at the end of an epoch, and training without it fails.',
     ['inputs', 'histories', 'configurations'],
     'every state of weights, masks, step and schedule, hence every sequence of training and inference calls',
     'histories are unbounded; the tests train for a few steps',
     [WRP, IMPL, 'sparsity/keras/pruning_callbacks.py'],
     [('call', WRP + ':PruneLowMagnitude.call'), ('masking', IMPL + ':Pruning.weight_mask_op'),
      ('callback', 'sparsity/keras/pruning_callbacks.py:UpdatePruningStep')],
     tech=TECHM, note=NOTE + ' The proof covers a distribution strategy under the assumption that all replicas hold the same '
     'values; a real two-replica run is a bounded sample.')
prop('P07', 'Pruning wrappers round-trip and strip to the same model',
     'A pruning wrapper rebuilt from its configuration has the same layer, schedule, block size, pooling type and '
     'm:n pattern, also through JSON. Wrapping a sequential or functional model (also nested or branching) keeps '
     'its outputs; training to the target sparsity and stripping gives a model without wrappers, with the same '
     'layers, the masked weights and the same outputs.',
     ['inputs', 'configurations', 'histories'], 'all schedules, block sizes and patterns; sampled models and short training runs',
     'settings and model structures combine; the tests build a few',
     [WRP, 'sparsity/keras/prune.py'],
     [('config', WRP + ':PruneLowMagnitude.get_config/from_config'), ('strip', 'sparsity/keras/prune.py:strip_pruning')],
     tech=TECHM, note=NOTE + ' The configuration round trip is proved for all settings; JSON, wrapping, training and '
     'stripping of whole models are checked on bounded samples only.')
prop('P08', 'The XNNPack policy prunes only supported pointwise models',
     'The latency policy lets only Conv2D layers with a 1x1 kernel be pruned. It accepts a model exactly when every '
     'branch starts with the 3x3 stride-2 convolution on a padded three channel input, ends in a global average '
     'pooling, and has only layers in between that sparse inference supports (1x1 convolutions without stride, '
     'dilation or groups; 3x3/5x5 depthwise ones with the documented stride and padding; elementwise layers).',
     ['inputs', 'configurations'], 'all kernel sizes, strides, dilations, groups, paddings of a layer; graphs up to 6 nodes',
     'the supported cases combine six attributes; the tests pick a few',
     [POL], [('layer support', POL + ':PruneForLatencyOnXNNPack._check_layer_support'),
             ('graph search', POL + ':PruneForLatencyOnXNNPack._lookup_layers')],
     tech=TECHM, note=NOTE + ' The graph search and the acceptance of '
     'models are enumerated for every graph of up to three and four layers; real Keras models and TensorFlow operations are '
     'checked on bounded samples.')
prop('P09', 'Pruning touches exactly the kernels of supported layers',
     'The registry offers for pruning exactly the kernel of every supported layer (pointwise kernel of separable '
     'convolutions, embeddings, none for activation, pooling, merge, depthwise and normalisation layers), kernel '
     'and recurrent kernel of every cell of a recurrent layer in order, and the four projection kernels of '
     'multi-head attention. Unsupported layers and cells are rejected.',
     ['configurations'], 'every layer class of the registry, one to three recurrent cells of any kind',
     'the registry has some eighty entries; the tests use a few',
     ['sparsity/keras/prune_registry.py'],
     [('registry', 'sparsity/keras/prune_registry.py:PruneRegistry.make_prunable')])

# --- quantization -------------------------------------------------------------
QK = 'quantization/keras/'
prop('Q01', 'Learned quantization ranges contain zero and the data',
     'In training, a last-value quantizer stores the range of the batch (per tensor or channel) widened just enough '
     'to contain zero, or to max = -min (narrow) / max = -min*(2^n-2)/2^n when symmetric; a moving-average one moves '
     'the stored range 0.1% towards it; an all-values one only ever widens. The result is the fake quantisation with '
     'the new range. Initial ranges contain zero, are per channel when asked for, and are not trainable.',
     ['inputs', 'histories', 'configurations'], 'all inputs of rank 1-4, all stored ranges, bits 2/4/8/16, all flags',
     'the tests look at single updates of small tensors',
     [QK + 'quant_ops.py', QK + 'quantizers.py'],
     [('last value', QK + 'quant_ops.py:LastValueQuantize'), ('moving average', QK + 'quant_ops.py:MovingAvgQuantize'),
      ('all values', QK + 'quant_ops.py:AllValuesQuantize')])
prop('Q02', 'Inference quantizes with the stored range and never changes it',
     'Outside training every quantizer fake-quantises with the stored range, bits and narrowness and leaves the range '
     'as it is; the fixed quantizer always uses its own range, the no-quantizer returns its input. Convolution '
     'kernels are quantised per channel, symmetric and narrow with the configured bits, transposed ones per tensor.',
     ['inputs', 'configurations'], 'all inputs and stored ranges, bits 2-16, all flags',
     'the frame condition is over all states',
     [QK + 'quant_ops.py', QK + 'quantizers.py', QK + 'default_8bit/default_8bit_quantizers.py'],
     [('inference', QK + 'quant_ops.py:_FakeQuantWithMinMaxVars'), ('fixed', QK + 'quant_ops.py:FixedQuantize')])
prop('Q03', 'Quantizers round-trip and compare by their settings',
     'Each of the last-value, moving-average, all-values, fixed and no-quantizers rebuilt from its configuration has '
     'the same settings and equals the original; two of them are equal exactly when type and all settings agree.',
     ['configurations'], 'all settings',
     'equality is over all pairs of settings',
     [QK + 'quantizers.py'], [('config', QK + 'quantizers.py:LastValueQuantizer.get_config')])
prop('Q04', 'Quantize configs address exactly their attributes',
     'A default quantize config (8-bit or n-bit) lists exactly the configured weight and activation attributes of a '
     'layer in order with the quantizers of the scheme, and writes quantised values back to the same attributes and '
     'nothing else; a wrong number or shape of values is rejected with nothing changed. Activation configs quantise '
     'the output of relu, relu6, swish (not linear, softmax, sigmoid, tanh) and reject others; configs rebuilt from '
     'their configuration behave the same and equality means equal settings.',
     ['inputs', 'configurations'], 'attribute lists up to 3, all bit widths, all shapes, up to 3 stacked cells',
     'attribute lists and flags combine',
     [QK + 'default_8bit/default_8bit_quantize_registry.py', QK + 'default_8bit/default_8bit_quantize_configs.py',
      QK + 'experimental/default_n_bit/default_n_bit_quantize_registry.py', QK + 'quantize_config.py'],
     [('get/set', QK + 'default_8bit/default_8bit_quantize_registry.py:Default8BitQuantizeConfig'),
      ('fixed range', QK + 'quantize_config.py:FixedQuantizeConfig')])
prop('Q05', 'Quantize wrappers compute with quantised weights only',
     'A quantize wrapper lets its layer compute with the fake-quantised weights and activations and quantises the '
     'output as configured, updating ranges in training only and never writing the original weights, which stay the '
     'trainable ones, each with a range of its own. An activation '
     'is quantised before (softmax, sigmoid, tanh), after (linear, relu, swish) or on both sides (gelu), and '
     'others are rejected; a quantize layer applies its quantizer, or nothing without one.',
     ['inputs', 'histories', 'configurations'], 'all weights, inputs, ranges; any number of calls',
     'tests run single calls',
     [QK + 'quantize_wrapper.py', QK + 'quantize_aware_activation.py', QK + 'quantize_layer.py'],
     [('wrapper', QK + 'quantize_wrapper.py:QuantizeWrapper.call'),
      ('activation', QK + 'quantize_aware_activation.py:QuantizeAwareActivation')])
prop('Q10', 'The registry quantizes every supported layer as documented',
     'For every supported layer class the 8-bit and n-bit registries quantise exactly its kernel and activation '
     '(dense and convolution layers) or its output (relu, average pooling, merge, upsampling layers) or nothing '
     '(data movement, max pooling, softmax), with the bit widths the registry was made with, whatever other '
     'registries exist. Recurrent layers are supported exactly when their cells are; unsupported layers are rejected.',
     ['configurations', 'histories'], 'every layer class of the registry, all bit widths, with and without other registries',
     'the registry shares state between instances',
     [QK + 'default_8bit/default_8bit_quantize_registry.py',
      QK + 'experimental/default_n_bit/default_n_bit_quantize_registry.py'],
     [('8 bit', QK + 'default_8bit/default_8bit_quantize_registry.py:Default8BitQuantizeRegistry'),
      ('n bit', QK + 'experimental/default_n_bit/default_n_bit_quantize_registry.py:DefaultNBitQuantizeRegistry')])

# --- encoders ------------------------------------------------------------------
TEC = 'internal/tensor_encoding/core/'
prop('E05', 'Composed encoders are lossless, also around a sum',
     'An encoder composed of lossless stages encodes along its tree and decodes to exactly the input. Summing '
     'part-decoded values of several inputs and finishing the decoding gives the sum of the inputs, whichever '
     'stages commute with sums, with parameters and shapes needed only on the side that uses them. Every stage '
     'sees and updates its own state only.',
     ['inputs', 'configurations', 'histories'],
     'all values and sizes of a matrix input; trees of up to three levels, any commuting and adaptive stages',
     'trees, commuting flags and state combine',
     [TEC + 'core_encoder.py'],
     [('encoder', TEC + 'core_encoder.py:Encoder'), ('composer', TEC + 'core_encoder.py:EncoderComposer'),
      ('split', TEC + 'core_encoder.py:split_params_by_commuting_structure')],
     level='exploration', tech=TECHE, note=NOTE + ' The encoder trees are five or six shapes of up to three levels; the stages are '
     'abstract (any lossless encode/decode pair) and the values symbolic.' + NOTEE)
prop('E06', 'Simple and gather encoders behave as the encoder they wrap',
     'A simple encoder decodes what it encoded to the input and moves its state as the wrapped encoder does, round '
     'after round. A gather encoder decodes the sum of part-decoded values to the sum of the inputs and updates its '
     'state from the aggregated updates. Splitting a nested dictionary into tensors and Python values and merging '
     'the parts are inverse, and values or dictionaries that do not fit are rejected.',
     ['inputs', 'configurations', 'histories'],
     'all values, any commuting and adaptive stages, several rounds and summands',
     'the flattened structures depend on tree, state and which values are tensors',
     [TEC + 'simple_encoder.py', TEC + 'gather_encoder.py', 'internal/tensor_encoding/utils/py_utils.py'],
     [('simple', TEC + 'simple_encoder.py:SimpleEncoder'), ('gather', TEC + 'gather_encoder.py:GatherEncoder'),
      ('split', 'internal/tensor_encoding/utils/py_utils.py:split_dict_py_tf')],
     level='exploration', tech=TECHE, note=NOTE + ' The wrapped encoders have up to three stages and a static input shape (2, 3); '
     'dictionaries have up to three levels of one or two keys.' + NOTEE)
CO = QK + 'collab_opts/'
prop('Q09', 'Quantization-aware training preserves sparsity and clusters',
     'With the prune-preserving scheme every weight that was zero before training is computed with as zero '
     'throughout training and inference; with the cluster-preserving schemes a kernel never holds more distinct '
     'values (per output channel of a convolution) than before, each of them its nearest current centroid, and '
     'zeros stay zero when sparsity is preserved, in every layer independently of the others. Other layers are '
     'quantised as usual, and stripping removes the clustering variables without changing outputs.',
     ['inputs', 'histories', 'configurations'],
     'all weights, masks, centroids and ranges of a quantizer call; whole models on sampled histories',
     'what one layer contains decides how others are treated; training histories are unbounded',
     [CO + 'prune_preserve/prune_preserve_quantize_registry.py',
      CO + 'cluster_preserve/cluster_preserve_quantize_registry.py', CO + 'cluster_preserve/cluster_utils.py'],
     [('prune', CO + 'prune_preserve/prune_preserve_quantize_registry.py:PrunePreserveDefaultWeightsQuantizer'),
      ('cluster', CO + 'cluster_preserve/cluster_preserve_quantize_registry.py:ClusterPreserveDefaultWeightsQuantizer'),
      ('strip', CO + 'cluster_preserve/cluster_utils.py:strip_clustering_cqat')],
     tech=TECHM, note=NOTE + ' Cluster extraction per channel, the registries and whole models are checked on bounded '
     'samples only.')

# --- weight compression -----------------------------------------------------------
KP = 'common/keras/compression/'
prop('W01', 'A wrapped layer keeps the interface of the layer',
     'A layer wrapped for pruning, clustering or quantization, or annotated, has for every input shape the output shape '
     'of the layer, shows and sets the trainable flag of the layer, trains the weights of the layer, keeps its other weights and '
     'counts its regularization losses exactly once; reading and setting the weights of a pruned, clustered or annotated '
     'layer reads and sets those of the layer.',
     ['inputs', 'configurations'], 'five wrappers, opaque shapes; sampled real layers and shapes',
     'models, other wrappers and optimizers rely on it for every layer and shape; the tests ask one wrapper for one shape',
     [CWR, 'sparsity/keras/pruning_wrapper.py', QK + 'quantize_wrapper.py', QK + 'quantize_annotate.py'],
     [('shape', QK + 'quantize_wrapper.py:QuantizeWrapper.compute_output_shape'),
      ('prune', 'sparsity/keras/pruning_wrapper.py:PruneLowMagnitude'), ('cluster', CWR + ':ClusterWeights')],
     level='exploration', tech=TECHF, note=NOTEF)
prop('K01', 'Compression schedule follows its documented polynomial',
     'The compression PolynomialDecay returns the start value until begin_step, the end value from end_step on and '
     'the documented polynomial in between. The value never leaves the interval between start and end and moves '
     'only towards the end value. It is returned in the requested type for every mix of integer and float arguments.',
     ['inputs', 'configurations'], 'all windows, values, exponents and steps; types sampled',
     'tests sample one schedule', [KP + 'schedules.py'], [('schedule', KP + 'schedules.py:PolynomialDecay')],
     tech=TECHM, note=NOTE + ' Result types are checked on bounded samples only.')
prop('K02', 'Compressed layers carry the pretrained and trained weights over',
     'A layer made for training computes what the original layer computes and one made for inference computes what '
     'the trained layer computed, whichever weights the algorithm compresses and for layers it does not compress. '
     'The weight lists hold the algorithm\'s weights in order followed by all other weights; source layers are never '
     'modified, and an update assigns exactly the variable it names.',
     ['inputs', 'configurations', 'histories'],
     'all weight values and sizes, up to three weights per layer; whole Keras layers sampled',
     'weight order, bias and algorithm combine',
     [KP + 'internal/optimize.py', KP + 'algorithm.py'],
     [('weight lists', KP + 'internal/optimize.py:_map_to_training_weights'),
      ('inference lists', KP + 'internal/optimize.py:_map_to_inference_weights'),
      ('updates', KP + 'algorithm.py:WeightCompressor.update_training_weight')],
     tech=TECHM, note=NOTE + ' Building and calling the Keras wrappers is checked on bounded samples only.')
prop('K03', 'Compression algorithms reconstruct the weight they promise',
     'SVD factors multiply to the sum of the leading singular triplets of the target rank, so the weight itself at '
     'full rank; the periodical variant does so on its update grid only and counts every step. Weight clustering '
     'decodes to the nearest centroid of every weight and follows trained centroids. BiasOnly decodes to the mean '
     'in every position.',
     ['inputs', 'configurations', 'histories'], 'all weights, matrix sizes, ranks, steps and frequencies (cluster counts 2 and 4)',
     'ranks, shapes and steps combine', [KP + 'algorithms/' + n + '.py' for n in (
         'same_training_and_inference', 'different_training_and_inference', 'periodical_update_and_scheduling',
         'weight_clustering', 'bias_only')],
     [('svd', KP + 'algorithms/same_training_and_inference.py:SVD'),
      ('periodical', KP + 'algorithms/periodical_update_and_scheduling.py:SVD'),
      ('clustering', KP + 'algorithms/weight_clustering.py:WeightClustering')],
     note=NOTE + ' The singular value decomposition itself is an assumed operation contract (thin decomposition with '
     'non-negative singular values); ranks during warm-up are checked on bounded samples only.')

# --- models -----------------------------------------------------------------------
prop('Q06', 'The model transformer rewrites matches and keeps the rest',
     'Applying a list of transforms to a functional or sequential model replaces every match until none is left, and '
     'nothing else: other layers, their weights, the connections, and the inputs and outputs of the model stay, so the '
     'model computes the composition of what the replacements compute. Layers with several consumers are only matched '
     'at the root of a pattern, metadata follows its layers, and replaced weights are found in the new model.',
     ['inputs', 'configurations'], 'every graph of three layers and sequence of four over three layer classes; sampled models of up to about ten layers',
     'matching depends on the order and shape of the whole graph; tests use single chains',
     [QK + 'graph_transformations/model_transformer.py'],
     [('transform', QK + 'graph_transformations/model_transformer.py:ModelTransformer.transform')],
     level='exploration', tech=TECHF, note=NOTEF)
prop('Q07', 'Exactly the annotated layers are quantized, with their config',
     'quantize_apply wraps exactly the annotated layers, uses the QuantizeConfig given for a layer and the default '
     'otherwise, and keeps the function of the model apart from the quantizations; the original and the annotated '
     'model and their weights never change. A saved quantized model loads and computes the same. Models and layers '
     'that cannot be quantized are rejected with an error.',
     ['inputs', 'configurations', 'histories'], 'all answers of a scheme and all annotations on three small models; sampled models, own configs, prefixes and schemes',
     'annotations, layouts and own configs combine',
     [QK + 'quantize.py', QK + 'quantize_annotate.py', QK + 'quantize_wrapper.py'],
     [('apply', QK + 'quantize.py:quantize_apply'), ('annotate', QK + 'quantize.py:quantize_annotate_model')],
     level='exploration', tech=TECHF, note=NOTEF)
prop('Q08', 'Fixed input and output ranges replace exactly those quantizers',
     'fix_input_output_range gives every model input a quantizer with the given range, bits and narrow_range, and the '
     'output layers the given output range; remove_input_range takes the input quantizers away. Every other layer '
     'keeps its place and its quantizations.',
     ['inputs', 'configurations'], 'all ranges and widths on a family of configurations; sampled sequential and functional models',
     'inputs and outputs are found in the serialised graph',
     [QK + 'quantize.py', QK + 'quantize_config.py'],
     [('fix', QK + 'quantize.py:fix_input_output_range'), ('remove', QK + 'quantize.py:remove_input_range')],
     level='exploration', tech=TECHF, note=NOTEF + ' Softmax, sigmoid and tanh outputs are quantised before the '
     'activation and left out of the output range clause.')
prop('Q11', 'Layout transforms quantize a fused block once, after it',
     'No quantization stays between a kernel layer and the batch normalization or ReLU it is fused with, a '
     'concatenation is quantized once after it instead of at its inputs, and every model input once. The transforms '
     'keep weights, connections, the function of the model and a QuantizeConfig given by the user; a separable '
     'convolution becomes the depthwise and pointwise convolutions that compute the same.',
     ['inputs', 'configurations'], 'every pattern with all layer kinds, configs, widths and weight values; whole models sampled',
     'patterns interact through the order in which they are applied',
     [QK + 'default_8bit/default_8bit_transforms.py', QK + 'experimental/default_n_bit/default_n_bit_transforms.py',
      QK + 'default_8bit/default_8bit_quantize_layout_transform.py'],
     [('8 bit', QK + 'default_8bit/default_8bit_transforms.py'),
      ('n bit', QK + 'experimental/default_n_bit/default_n_bit_transforms.py'),
      ('order', QK + 'default_8bit/default_8bit_quantize_layout_transform.py:Default8BitQuantizeLayoutTransform.apply')],
     tech=TECHM, note=NOTE + ' Whole models are checked on bounded samples only.')

na('Entropy coding is done by tensorflow_compression (range coder, power law entropy model), which is not installed here, '
   'so the module cannot even be imported; a contract for it would be assumed, not checked against the code that runs.',
   'K04', 'Entropy penalised compression decodes to the trained latents',
   'Decompressing an EPR-compressed weight yields the rounded latents times the step, for kernels in the frequency '
   'domain and in the plain domain, and the entropy loss is that of the latents.',
   ['inputs'], 'all weights and step sizes', 'coding is over all values', [KP + 'algorithms/epr.py'],
   [('algorithm', KP + 'algorithms/epr.py:EPR')])

"""Writes properties.jsonl and MANIFEST.json (the list of properties lives here)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, text, why, files, mech, obs, state=(), tech='', note=''):
    P.append(dict(id=pid, title=title, statement=' '.join(statement.split()),
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c)
                                                   for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=obs, hook_needed=None)))
    TECH[pid] = (tech, note)


TECH = {}
OC, PT, SK = 'ocnn/octree/octree.py', 'ocnn/octree/points.py', 'ocnn/octree/shuffled_key.py'
NN = 'ocnn/nn/'

prop('C01', 'Shuffled keys code voxel coordinates and batch index without loss',
     '''For every depth from 1 to 16, encoding integer voxel coordinates in [0, 2^depth) and a batch
     index below 2^15 gives the key whose low 48 bits interleave the coordinate bits in the order x, y,
     z (x most significant) and whose upper bits are the batch index; decoding returns exactly the same
     coordinates and batch index. Keys therefore sort by batch index and then in Morton order, and the
     key of a voxel's parent is its key shifted right by three bits. Integer and floating tensors of any
     shape are accepted.''',
     ['inputs'], 'all coordinates, batch indices, depths 1-16, argument types and tensor shapes',
     'The tests decode one fixed list at one depth; a wrong bit of a lookup table shows only for some '
     'coordinates and depths.',
     [SK], [('lookup tables for 8 bits (encode) / 9 bits (decode)', SK)], ['xyz2key / key2xyz results'],
     tech='differential monitor against bit-by-bit interleaving',
     note='exhaustive per axis at every depth plus random coordinates')

prop('C02', 'An octree built from points is exactly the tree of their occupied voxels',
     '''Building an octree from a point cloud in [-1, 1]^3 gives, at every depth above the full depth,
     exactly the eight children of each non-empty node of the depth above, non-empty being those voxels
     that contain a point, and all voxels of the grid at depths up to the full depth; a point on a
     voxel face belongs to the upper voxel and one at +1 to the last voxel. Nodes are sorted by batch
     index and Morton order, child indices number the non-empty nodes consecutively and are -1 for empty
     ones, and the node counts agree with these lists. The result depends neither on the order of the
     points nor on whether batch indices are given, the batch indices and batch size of the cloud are
     kept, and the returned index maps every point to its leaf.''',
     ['inputs', 'configurations'],
     'all point clouds (duplicates, cube faces, voxel boundaries, empty samples), depths 1-16, full '
     'depths, batch sizes up to hundreds',
     'The tests build one octree from six points and compare it with a stored answer.',
     [OC, PT, SK], [('build_octree', OC), ('unique on shuffled keys', OC)],
     ['keys, children, nnum, nnum_nempty of every depth', 'build_octree return value'],
     state=[('keys', 'node keys per depth', OC), ('children', 'non-empty numbering', OC)],
     tech='runtime comparison with a reference octree (numpy sets)',
     note='whole state of the octree is compared after every build')

prop('C03', 'Leaf signals are the averages of the points of each leaf',
     '''For every non-empty finest voxel the octree built from a point cloud stores the mean position of
     its points in voxel units, the normalised mean of their normals (a zero mean stays zero) and the
     mean of their feature vectors, one row per non-empty voxel in the order of the voxels. Signals the
     cloud does not carry are absent. The averages are right for clouds in single and double precision
     and do not mix voxels or samples of a batch.''',
     ['inputs'], 'all clouds with any subset of normals and features',
     'The tests compare one small stored example.', [OC, 'ocnn/utils.py'],
     [('scatter_add averages', OC)], ['points/normals/features of the finest depth'],
     tech='runtime comparison with per-voxel averages computed from the raw points',
     note='tolerance for the order of summation only')

prop('C04', 'Input features and extracted points are faithful to the octree',
     '''The input feature of an octree is, for each letter of the selector string in its canonical
     order, the normals (N), the displacement of the mean point from the voxel centre along the mean
     normal (D), the offset of the mean point from the voxel centre (L), the mean point in [-1, 1] (P)
     and the stored features (F), computed for the non-empty finest voxels and zero for empty ones when
     all nodes are asked for. Extracting the points of an octree yields one point per non-empty finest
     voxel at its mean position (or at the voxel centre if no signal is stored), with its normal,
     feature and batch index and rescaled into [-1, 1] unless told otherwise. Building an octree again
     from the extracted points gives the same tree.''',
     ['inputs', 'configurations'], 'all octrees and all selector strings',
     'The tests evaluate one selector on one octree.', [OC],
     [('get_input_feature', OC), ('to_points', OC)], ['returned features and clouds'],
     tech='runtime comparison with the reference definition; round-trip monitor',
     note='every selector, built / merged / grown octrees')

prop('C05', 'Merging samples equals building the batch at once',
     '''Merging a list of octrees gives the same octree as building one octree from the merged point
     clouds: same nodes, children, counts, batch size, stored signals and batch indices, with the
     samples in list order. Merging point clouds concatenates points, normals, features and labels in
     list order and assigns each point the index of its sample in the list. The samples of a batch do
     not change by being merged, and lists of hundreds of samples, single samples and samples
     without points merge correctly.''',
     ['inputs', 'histories'], 'all lists of octrees / clouds, built or grown',
     'The tests merge one pair.', [OC, PT],
     [('merge_octrees', OC), ('merge_points', PT)], ['merged octree / cloud', 'inputs afterwards'],
     tech='differential monitor: merge vs. batched build vs. reference octree',
     note='octrees built at other depths or devices are rejected or out of scope')

prop('C06', 'Splitting and growing keep the octree well formed',
     '''Starting from full layers of any full depth of at least one, any sequence of splitting a layer by
     a 0/1 mask (also a second time) and growing the next layer gives an octree whose new layer holds
     exactly the eight children of every node marked non-empty, in order, whose child indices number
     the marked nodes consecutively (-1 elsewhere), and whose counts agree. Neighbourhood tables
     constructed along the way are those of the finished tree, and replaying the occupancy of an octree
     built from points reproduces that octree. Masks may mark everything or be of any 0/1
     element type; where a mask marks nothing, the first node is split, so that a layer is never without
     non-empty nodes.''',
     ['histories'], 'all split / grow histories',
     'The tests replay a single octree once.', [OC],
     [('octree_split / octree_grow', OC), ('construct_neigh', OC)],
     ['keys, children, counts, neighbour tables after every step'],
     tech='lock-step reference model over random histories',
     note='state compared after every operation of a history')

prop('C07', 'Neighbour tables are exact for every kernel shape and stride',
     '''For every octree, layer of depth at least one, kernel shape from 333, 311, 131, 113, 222, 331,
     133, 313 and stride 1 or 2, in both conventions (all nodes or non-empty nodes), row i and column k
     of the neighbour table hold the index of the node at the k-th offset of the kernel (in
     lexicographic order of x, y, z) from node i (stride 1) or from the first child of each eight
     siblings (stride 2), and -1 exactly if no such node exists in the same sample or it lies outside
     the cube. Relations are symmetric: if b is the neighbour of a at an offset, a is the neighbour of
     b at the opposite one. Constructing tables layer by layer or all at once makes no difference, and
     unknown kernels or strides are refused.''',
     ['inputs', 'configurations'], 'all trees, depths, kernels, strides, conventions',
     'The tests check one tree at few depths against a stored table.', [OC, 'ocnn/utils.py'],
     [('construct_neigh (parent-to-child propagation)', OC), ('get_neigh', OC)],
     ['get_neigh results'], state=[('neighs', '27-neighbour tables of all nodes', OC)],
     tech='runtime comparison with a coordinate-hash neighbour search',
     note='all 8x2x2 table variants in each explored tree')

prop('C08', 'Node lookup and alignment of values between octrees are exact',
     '''Searching nodes by integer or fractional coordinates with a batch index, or by keys, returns
     the index of exactly the node containing the query among all or among the non-empty nodes, and
     -1 for every query whose node does not exist, including queries past the last key and past the
     last sample. Looking values up by key returns the stored row for present keys and zero rows for
     absent ones, keeping the element type. Aligning data of one octree to another of the same
     depth copies the row of each common voxel and zero elsewhere, and the gradient of what was
     looked up or aligned flows back to exactly those rows.''',
     ['inputs'], 'all octrees, depths 0-16 and queries inside the cube',
     'The tests look up a handful of keys.', [OC, NN + 'octree_align.py'],
     [('bucketize plus comparison', OC), ('search_value', NN + 'octree_align.py')],
     ['search_xyzb / search_key / octree_align results'],
     tech='runtime comparison with a dictionary lookup', note='hits and misses counted separately')

prop('C09', 'Node views, padding and voxel grids agree with the nodes',
     '''Coordinates, batch indices, keys, child indices and non-empty masks read from an octree agree
     with each other for every depth, for all nodes and for the non-empty ones. Padding moves
     non-empty rows to their nodes and writes the given value elsewhere, and removing the padding is its
     exact inverse; element types are kept and gradients flow only through real rows. Converting node
     features into a dense voxel grid puts each row at its sample and coordinate and zero elsewhere.''',
     ['inputs', 'configurations'], 'all octrees, layers and both row conventions',
     'The tests check padding on one tree.', [OC, NN + 'octree_pad.py', NN + 'octree2vox.py'],
     [('xyzb / batch_id / key / nempty_mask', OC), ('octree_pad / octree_depad', NN + 'octree_pad.py')],
     ['returned tensors'], tech='cross-view consistency monitor against the reference tree',
     note='every layer of every explored tree')

prop('C10', 'Gathering neighbours and scattering back are exact and adjoint',
     '''Gathering node features over a neighbourhood gives a row, offset, channel array holding the
     feature of each neighbour, zero where it is missing. Scattering such an array back sums, for each
     node, all entries that refer to it. The two are adjoint linear maps for every kernel, stride and
     row convention, keep the element type, and are each other's gradient.''',
     ['inputs', 'configurations'], 'all trees, kernels, strides, row conventions',
     'The tests check one kernel on one tree.', [NN + 'octree2col.py', 'ocnn/utils.py'],
     [('octree2col / col2octree', NN + 'octree2col.py')], ['returned tensors', 'gradients'],
     tech='runtime comparison with explicit gather / scatter; adjointness identity',
     note='float32 and float64')

CONV = [NN + 'octree_conv.py', NN + 'octree2col.py', OC]
prop('C11', 'Octree convolution and deconvolution compute the sparse convolution',
     '''For every tree, layer, kernel shape, stride 1 or 2, number of channels and row convention, octree
     convolution returns at each output node the sum over the kernel offsets of the neighbour's feature
     times that offset's weight matrix, plus the bias if asked, missing neighbours counting as zero; on
     a full octree this equals dense 3D convolution. Deconvolution is its transpose: every node
     spreads its feature to the same neighbourhood. With all nodes, the rows of a strided convolution
     that belong to empty nodes are zero, and strided deconvolution uses only non-empty input nodes.''',
     ['inputs', 'configurations'], 'all trees, kernels, strides, channels, row conventions, biases',
     'The tests compare a few configurations on full octrees.', CONV,
     [('octree2col + matmul / chunked accumulation', NN + 'octree_conv.py')], ['layer outputs'],
     tech='runtime comparison with numpy reference operators', note='includes dense conv3d on full trees')

prop('C12', 'Gradients of convolution layers are exact',
     '''Back-propagation through convolution, deconvolution, depth-wise and group convolution gives,
     with respect to input features, weights and biases, exactly the gradients of the linear map the
     layer computes, whatever the tree, kernel, stride, row convention, execution method and chunking.
     This holds when only some of the inputs require gradients, and when several forward passes are
     made before their backward passes run in any order. Gradients can themselves be differentiated,
     the second derivatives being exact as well.''',
     ['inputs', 'configurations', 'schedules'], 'all configurations and orders of backward passes',
     'The tests compare gradients of few configurations with a dense convolution.',
     CONV + [NN + 'octree_dwconv.py', NN + 'octree_gconv.py'],
     [('custom autograd functions', NN + 'octree_conv.py')], ['gradients of data, weights, bias'],
     tech='runtime comparison of gradients with transposed reference operators',
     note='interleaved backward passes included')

prop('C13', 'Execution strategy never changes results of convolution layers',
     '''Direct execution and buffered execution with any buffer limit (any number of chunks, including
     one row per chunk) of convolution, deconvolution and depth-wise layers give the same outputs and
     gradients up to rounding, in single and double precision. In mixed-precision mode the result
     differs from full precision by no more than the rounding of the low precision, and parameters
     receive gradients of their own type. A limit below one row, or above them all, is no exception, and the temporary buffers hold no more elements than the limit, or one row, allows.''',
     ['configurations', 'inputs'], 'all chunk sizes, methods, precisions',
     'The tests use one buffer size for which the chunking hardly matters.', CONV,
     [('chunk loop over neighbourhood rows', NN + 'octree_conv.py')], ['outputs and gradients'],
     tech='differential monitor across execution strategies', note='chunks of 1, 2, 3, n-1, n, n+1 rows')

prop('C14', 'Depth-wise and group convolutions equal full ones with block weights',
     '''Depth-wise convolution equals a full convolution whose weight matrices are diagonal, for
     every tree, kernel, stride and row convention, with or without bias. Group convolution equals
     the full convolution with block-diagonal weight matrices, one block per group in channel order.
     Strided variants follow the same row conventions as full convolution.''',
     ['inputs', 'configurations'], 'all trees, kernels, strides, groups',
     'The tests compare one setting.', [NN + 'octree_dwconv.py', NN + 'octree_gconv.py'],
     [('octree_dwconv', NN + 'octree_dwconv.py'), ('octree_gconv', NN + 'octree_gconv.py')],
     ['layer outputs'], tech='runtime comparison with block-structured reference convolution', note='')

prop('C15', 'Max pooling and unpooling respect the sibling structure',
     '''Max pooling gives each non-empty parent the channel-wise maximum over its eight children (over
     its non-empty children in the non-empty convention, zero if it has none), as one row per non-empty
     parent or, with all nodes, per parent with zero rows for the empty ones, and the gradient goes
     entirely to one child attaining the maximum, the one whose index is returned, also if several do. Unpooling with the returned indices puts each value back
     at the child it came from and zero at all others, so pooling an unpooled positive signal
     returns it. Values of any sign and size are handled.''',
     ['inputs', 'configurations'], 'all trees, layers, values, row conventions',
     'The tests pool one positive feature.', [NN + 'octree_pool.py'],
     [('octree_max_pool / octree_max_unpool', NN + 'octree_pool.py')], ['outputs, indices, gradients'],
     tech='runtime comparison with reference pooling', note='includes parents without non-empty child')

prop('C16', 'Average pooling and global pooling are true averages',
     '''Average pooling gives at each output node the mean of the features of the existing nodes in its
     neighbourhood, missing neighbours counting neither in the sum nor in the number, for all kernels,
     strides and row conventions (with all nodes and stride 2, the rows of empty parents are zero).
     Global pooling gives for each sample of the batch the mean over exactly its own nodes, and
     zero for a sample without nodes. Precision of the input is kept, in half and mixed precision up to its
     rounding, and gradients are those of the mean.''',
     ['inputs', 'configurations'], 'all trees, kernels, strides, batches',
     'The tests compare one configuration.', [NN + 'octree_pool.py', 'ocnn/utils.py'],
     [('octree_avg_pool', NN + 'octree_pool.py'), ('octree_global_pool', NN + 'octree_pool.py')],
     ['outputs and gradients'], tech='runtime comparison with reference averages', note='')

prop('C17', 'Interpolation at points is exact nearest / trilinear interpolation',
     '''Nearest interpolation returns for a point the feature of the voxel containing it, trilinear
     interpolation the average of the existing ones among the eight surrounding voxel centres with
     trilinear weights renormalised to one; a point without any such voxel gets zero. With bound check,
     voxels outside the cube never contribute, whatever the point. Points are given in [-1, 1] or,
     without rescaling, in voxel units, are not altered, and each uses only nodes of its own sample;
     the gradient with respect to features is the transpose of this linear map, in mixed precision too.''',
     ['inputs', 'configurations'],
     'all query points (in the cube, or with bound check anywhere), methods, row conventions',
     'The tests interpolate at few points of one octree.', [NN + 'octree_interp.py', OC],
     [('octree_nearest_pts / octree_linear_pts', NN + 'octree_interp.py')], ['outputs and gradients'],
     tech='runtime comparison with direct evaluation of the interpolant',
     note='without bound check, linear queries stay half a voxel inside the cube')

prop('C18', 'Upsampling equals interpolation at the finer voxel centres',
     '''Upsampling features from one depth to any deeper one gives each finer node the nearest or
     trilinear interpolation of the coarse features at its centre, with rows for all or for the
     non-empty fine nodes as configured. The default target is one depth finer, and a target equal
     to the source depth returns the features unchanged. No value crosses the cube's boundary to the
     opposite side or leaks between samples.''',
     ['inputs', 'configurations'], 'all trees, source and target depths, methods, row conventions',
     'The tests upsample one level of one tree.', [NN + 'octree_interp.py'],
     [('OctreeUpsample', NN + 'octree_interp.py')], ['outputs and gradients'],
     tech='runtime comparison with direct evaluation at node centres', note='')

prop('C19', 'Group and instance normalisation use per-sample statistics',
     '''Instance and group normalisation give for every sample of the batch and every channel (group of
     channels) features with the mean removed and divided by the square root of the variance plus
     epsilon, the statistics taken over exactly the nodes of that sample (and the channels of that
     group), then multiplied by the weight and shifted by the bias. The result does not depend on the
     other samples, also when samples have very different sizes or no nodes. Gradients for features,
     weight and bias are those of this formula.''',
     ['inputs', 'configurations'], 'all trees, batches, channel groups, value ranges',
     'The tests compare one batch with a loop.', [NN + 'octree_norm.py', 'ocnn/utils.py'],
     [('batch_id based scatter statistics', NN + 'octree_norm.py')], ['outputs and gradients'],
     tech='runtime comparison with a per-sample reference in double precision', note='')

prop('C20', 'Drop path removes whole samples with the right probability',
     '''In training, drop path multiplies all rows of a sample by the same factor, which is either zero
     or, with scaling by the keep probability, its inverse (one without scaling), samples being dropped
     independently of each other with the configured probability. In evaluation mode or with zero
     probability the data is returned unchanged. Rows belong to samples as given by the batch
     indices of the layer or those passed explicitly, gradients carry the same factors, and small
     probabilities are exact for features of any precision.''',
     ['inputs', 'configurations'], 'all trees, probabilities, modes; frequencies over many calls',
     'The tests check that a call runs.', [NN + 'octree_drop.py'],
     [('OctreeDropPath', NN + 'octree_drop.py')], ['output / input ratios per sample'],
     tech='per-sample factor monitor and frequency test', note='frequency test at 5.5 sigma')

prop('C21', 'Geometric transforms of point clouds move points and normals together',
     '''Flips negate, translations add and scalings multiply the chosen coordinates; rotation applies
     right-handed rotations about x, then y, then z; normalising maps the cloud by the given centre and
     radius. Normals follow every transform so that they stay perpendicular to the transformed surface
     and of unit length (inverse transpose for non-uniform scale; a zero factor is rejected), features,
     labels and batch indices stay, and re-orienting normals only flips their signs as requested. Sequences
     of transforms compose, and tensors the cloud was made from are never altered.''',
     ['inputs', 'histories'], 'all clouds, parameters and sequences of transforms',
     'The tests rotate and flip fixed clouds.', [PT],
     [('rotate / scale / flip / translate / normalize / orient_normal', PT)], ['clouds after each step'],
     tech='lock-step reference transforms and geometric invariants', note='')

prop('C22', 'Selecting, clipping, merging and saving points keep rows intact',
     '''Selecting points by a mask, indices or a slice picks the same rows of all attributes; clipping to a
     box keeps exactly the points strictly inside it (shrunk by the margin) with all of their attributes and returns
     the mask it used. Merging concatenates clouds in order with sample indices, and a saved file holds
     the same attributes. Clouds of which an attribute does not match the points in number or shape
     are rejected when constructed.''',
     ['inputs'], 'all clouds, attribute subsets, boxes, selections',
     'The tests clip one cloud.', [PT],
     [('__getitem__ / inbox_mask / clip / save / check_input', PT)], ['returned clouds, masks, files'],
     tech='row-identity monitor (unique ids in every row)', note='')

prop('C23', 'The data pipeline yields augmented, clipped and collated samples correctly',
     '''The standard transform turns a raw sample into a cloud within [-1, 1] and its octree, drops
     exactly the points outside, and in training applies one random flip, rotation, scale and
     translation within the configured ranges, the same one to points and normals; without
     augmentation it changes nothing. The octree it returns is the one of the cloud it returns, results are
     reproducible for equal random states, and the raw sample is not altered. Collation merges octrees
     (and points if asked) in the order of the samples, stacks or lists all other entries in that order,
     and over an epoch of a data loader every sample appears exactly once whatever the number of workers.''',
     ['inputs', 'configurations', 'schedules'], 'all samples, settings, random states, worker counts',
     'The tests do not cover the pipeline.', ['ocnn/dataset.py', PT, OC],
     [('Transform', 'ocnn/dataset.py'), ('CollateBatch', 'ocnn/dataset.py')],
     ['returned samples and batches'],
     tech='affine-map recovery, exactly-once monitor over epochs', note='')

prop('C24', 'Moving octrees and clouds between devices moves everything, changes nothing',
     '''After moving an octree or point cloud to a device, every tensor it holds is on that device with
     the same content and type, all other attributes are equal, and it can be used (grown, searched,
     neighbours constructed) there. The copy is independent: later changes of one are not seen by
     the other. Moving to the device it is already on returns it with the same content. Copies made by
     copy.deepcopy, by pickling, or by saving and loading, of octrees, clouds and layers, are as complete,
     usable and independent.''',
     ['inputs', 'histories'], 'all octrees and clouds in any stage of construction',
     'No device but the CPU is there in the tests.', [OC, PT],
     [('Octree.to / Points.to', OC)], ['devices and contents of all tensors'],
     tech="monitor of every tensor after moves to 'meta' and 'cpu:0'",
     note="no GPU in the sandbox: 'meta' shows that everything moves, 'cpu:0' that contents stay")

prop('C25', 'Operators and models never alter their inputs or the octree',
     '''Apart from the methods that are documented to edit an object in place, calling any layer, model,
     search, conversion or loss, forward or backward, in training or evaluation mode, leaves
     every tensor, list and dictionary passed in and the whole octree or cloud exactly as it was. The same octree and
     feature tensor can therefore be used again by other branches, models or epochs.''',
     ['inputs', 'histories'], 'all operators, inputs and sequences of calls',
     'Tests use inputs once and never look at them again.', ['ocnn/nn', 'ocnn/modules', 'ocnn/models', OC, PT],
     [('out-of-place operators', 'ocnn/nn')], ['snapshots of inputs before and after each call'],
     tech='snapshot monitor around every public call', note='')

prop('C26', 'Samples of a batch do not influence each other in evaluation',
     '''In evaluation mode, every layer and network gives for each sample of a batch the same result as
     for that sample alone, whatever the order, number and content of the other samples. Changing
     one sample changes neither the results nor the gradients of the others. This includes
     interpolation at query points and the encoders and decoders of generative networks.''',
     ['inputs', 'configurations'], 'all batches, networks, layers',
     'Tests run models once on a fixed batch.', ['ocnn/models', 'ocnn/modules', 'ocnn/nn', OC],
     [('batch bits of the keys; per-sample statistics', SK)], ['outputs for sub-batches'],
     tech='metamorphic monitor: alone / permuted / perturbed batches', note='')

prop('C27', 'Published networks compute their architectures',
     '''LeNet, ResNet, SegNet, UNet, HRNet, the auto-encoder, OUNet and the image-to-shape network, with
     any admissible settings of stages, blocks, channels, interpolation and row convention, compute in
     training and evaluation mode the composition of convolution, normalisation, activation, pooling,
     residual, skip, transition and header layers that they publish, on the weights stored
     under the published parameter names. Building blocks do so with each of their options (stride,
     bottleneck, shortcuts, kernel, recomputation). Skip connections between different trees use the
     features of common voxels and zero elsewhere.''',
     ['configurations', 'inputs'], 'all settings and weights',
     'The tests compare parameter counts or output shapes.', ['ocnn/models', 'ocnn/modules'],
     [('forward of each network', 'ocnn/models')], ['outputs for given weights'],
     tech='independent numpy evaluation of the architecture from the state dict', note='')

prop('C28', 'Training works: gradients, recomputation, checkpoints, statistics',
     '''For every published network the gradient that back-propagation gives for each parameter is the
     derivative of the loss, and every parameter gets one. Recomputing activations instead of storing
     them changes neither outputs nor gradients, and a network restored from its saved state computes
     the same. In mixed precision, training works as well and the results are those of single
     precision up to the lower one's rounding. Training steps reduce the loss and update running
     statistics, evaluation changes no state, and a forward pass leaves every part in the training or
     evaluation mode it was put in.''',
     ['inputs', 'histories', 'configurations'], 'all networks, data, parameter directions',
     'The tests make no training step.', ['ocnn/models', 'ocnn/modules', 'ocnn/nn'],
     [('autograd functions', 'ocnn/nn'), ('checkpointing', 'ocnn/modules/resblocks.py')],
     ['gradients, losses, state dicts'],
     tech='finite-difference monitor on live networks', note='double precision; kinks are recognised')

prop('C29', 'Generative decoders return the tree their predictions describe',
     '''When the auto-encoder, OUNet or image-to-shape network decodes freely, the returned octree is
     exactly the one obtained by splitting at each depth the nodes whose predicted class is 1, with
     neighbour tables complete and the predicted signal stored at the non-empty finest nodes, for any weights, codes and batch sizes, also
     if everything is split (if nothing is, the first node of the layer is split). Predictions cover every node
     of every depth, signals lie in [-1, 1], and the input octree is not changed. Running the network
     again on the decoded tree with the tree given reproduces the predictions.''',
     ['inputs', 'histories'], 'all weights, codes, depths, batches',
     'The tests decode one fixed model.',
     ['ocnn/models/autoencoder.py', 'ocnn/models/ounet.py', 'ocnn/models/image2shape.py', OC],
     [('ocnn_decoder with update_octree', 'ocnn/models/autoencoder.py')], ['octree_out, logits, signal'],
     tech='replay of the predictions on a reference tree', note='')

prop('C30', 'Results do not depend on history, threads or uninitialised memory',
     '''Repeating any operation on equal inputs gives equal results, whatever was computed before or
     between, with other trees, devices, kernels or settings, and in whatever order the first uses of
     the library happen. Nor do they depend on the layout in memory of the tensors given (strides, offsets,
     views). Concurrent threads working on their own or on shared read-only octrees and models get the
     results of sequential execution. No result contains uninitialised memory. No
     operation changes global settings such as the gradient mode, the default type or the state of random
     generators by reseeding them.''',
     ['schedules', 'histories', 'inputs'], 'all interleavings and histories of calls',
     'Tests run each operation once in one thread in one order.',
     ['ocnn/octree/shuffled_key.py', 'ocnn/utils.py', 'ocnn/nn', OC],
     [('look-up table caches', SK)], ['results of repeated / concurrent calls'],
     tech='repeat / interleave / thread stress with result comparison; poisoned memory', note='')

prop('C31', 'Tensor utilities follow their definitions',
     '''Scatter-add sums rows by index along any axis with broadcasting of the index, cumulative sums are
     inclusive or exclusive and start with zero if asked, integer division truncates towards zero, grids
     enumerate their points in lexicographic order, and Xavier initialisation is uniform within the
     bound given by fan-in and fan-out. Short kernel lists are extended by their last value, and the
     example octree is reproducible. Element types and gradients are kept.''',
     ['inputs'], 'all shapes, axes, types',
     'The tests check one example each.', ['ocnn/utils.py'], [('utils', 'ocnn/utils.py')],
     ['returned tensors'], tech='runtime comparison with numpy definitions', note='')

prop('C32', 'Segmentation and classification solvers score the right points',
     '''The segmentation solver computes loss and accuracy over exactly the points whose label is above
     LOSS.mask. Per batch it reports the mean, over the classes present in the labels, of intersection
     over union, and the per-class intersections and unions; the part IoU is formed from their
     averages for the classes above the mask. In evaluation, probabilities of a clipped cloud go back to the original
     points they came from (zero for points clipped away), sums over the epochs accumulate per file, and
     the last epoch saves them under the name of that file. The octree is built from the points of the
     batch if there is none. The classification solver reports cross entropy and accuracy of its
     predictions. Each shipped configuration builds the network it names and drives its solver through a
     training and a test step.''',
     ['inputs', 'histories', 'configurations'], 'all labels, predictions, masks, epochs, shipped configurations',
     'The tests do not cover the projects.',
     ['projects/segmentation.py', 'projects/classification.py', 'projects/configs'],
     [('SegSolver', 'projects/segmentation.py'), ('ClsSolver', 'projects/classification.py')],
     ['metrics, accumulated results, files'],
     tech='runtime comparison with reference metrics', note='the call .cuda is replaced by the identity')

prop('C33', 'Losses and outputs of generative tasks are computed on matching nodes',
     '''The losses of the auto-encoding, completion and image-to-shape tasks are, per depth, the cross
     entropy and accuracy of the split predictions against the non-empty mask of the ground-truth
     octree, and the mean squared error (summed over channels) of the predicted against the
     ground-truth signal (normal and displacement) of the same voxels, reported under their names,
     with train or test prefix, together with their sum. Completion is judged on the octree of the complete
     shape. Converting decoded octrees to points places one point per non-empty voxel at its centre
     displaced along its predicted unit normal, per sample of the batch, and evaluation writes input,
     output and image files of each sample under its name.''',
     ['inputs'], 'all predictions and octrees', 'The tests do not cover the projects.',
     ['projects/autoencoder.py', 'projects/completion.py', 'projects/image2shape.py'],
     [('compute_loss / octree2pts', 'projects/autoencoder.py')], ['loss dictionaries, point files'],
     tech='runtime comparison with reference losses', note='the call .cuda is replaced by the identity')

prop('C34', 'Dataset preprocessing keeps geometry and labels aligned',
     '''The datasets of the projects (ShapeNet and ModelNet classification and segmentation, SemanticKITTI,
     ScanNet, auto-encoding, completion, image-to-shape) bring each raw sample into the unit cube with
     their documented scale and shift, keep labels, colours and normals on their points under every
     augmentation (elastic and colour distortion included), map labels by the documented table, clip
     colours to their range, and are reproducible for equal random states. Without augmentation nothing random is applied.
     Readers return what the files hold, file lists give names and labels in order, collated batches keep
     points, octrees, labels, images and names of a sample together, the raw sample is left as it was.''',
     ['inputs', 'configurations'], 'all samples, settings, random states',
     'The tests do not cover the projects.', ['projects/datascts'],
     [('Transform / ReadFile', 'projects/datascts')], ['returned samples'],
     tech='row-identity monitor and reference preprocessing', note='')

prop('C35', 'Offline tools transform files faithfully',
     '''The checkpoint tools upgrade old weights (layout and names), list variables and their sizes, or remove
     all but the second last file (the newest model) of each folder, and leave everything else as it is. The preparation tools of SemanticKITTI,
     ShapeNet, ModelNet40, ScanNet and image-to-shape write for each input file the points, normals,
     colours and labels that follow from it, scaled as documented, skip what is done, and list the
     files in the right split with the right label. ScanNet chunks cover the whole scan with their masks,
     merging adds the predictions of scans and chunks at the points they belong to, and the printed score is
     the accuracy and IoU of the merged labels. Scripts start the commands with matching options and
     summarise the logged numbers.''',
     ['inputs'], 'all input files and options', 'The tests do not cover the tools.',
     ['projects/tools', 'projects/scripts'],
     [('command line tools', 'projects/tools'), ('drivers', 'projects/scripts')], ['written files'],
     tech='runtime comparison of written files with reference results',
     note='downloads are not exercised and cyminiball is replaced by a stand-in')

prop('C36', 'Every way to write a call means the same; fresh layers start as documented',
     '''An argument that is left out has the default documented in its signature, for the octree, the point
     cloud, the operators, blocks, networks and utilities, and a call means the same whether its arguments
     are given by position or by name. The module and the function of an operator return the same.
     Freshly built layers start with Xavier-uniform weights of the bound given by the size of the kernel,
     zero biases and, for normalisations, scale one; the random seed fixes them, and
     reset_parameters draws them anew.''',
     ['inputs'], 'every public callable, random trees and arguments',
     'The tests write each call in one way only.',
     ['ocnn/octree', 'ocnn/nn', 'ocnn/modules', 'ocnn/models', 'ocnn/utils.py'],
     [('public signatures', 'ocnn'), ('reset_parameters', 'ocnn/nn/octree_conv.py')],
     ['returned tensors', 'parameters'],
     tech='runtime comparison of the ways to write one call', note='')

prop('C37', 'Calls that cannot be honoured are refused, and failed calls leave no trace',
     '''Arguments that do not fit raise an error: clouds whose attributes differ in number or shape, a cloud of
     another batch size than the octree built from it, octrees of different depths or devices in a merge, an
     unknown kernel, stride, axis or file type, zero scale factors, a full layer beyond the full
     depth, a coarser upsampling target, channels that groups do not divide, kernel lists that are too
     long, features of which half
     the rows are missing and, for convolutions, interpolation and alignment, any other number of
     rows (for convolutions also of channels). A call that is refused, or in which any operation fails midway, forward
     or backward, changes neither its inputs, the octree, cloud, layer or model it uses, nor global
     settings; the failure is not swallowed, and later calls give what they give without it.''',
     ['inputs', 'histories', 'fault_sequences'], 'every public call with a failure at any of its operations; all arguments '
     'that do not fit',
     'The tests only make calls that succeed.',
     ['ocnn/octree', 'ocnn/nn', 'ocnn/modules', 'ocnn/models', 'ocnn/utils.py'],
     [('assertions and exceptions', 'ocnn'), ('Points.check_input', PT), ('merge_octrees', OC)],
     ['exceptions', 'snapshots of inputs before and after the failure', 'results afterwards'],
     tech='fault injection below autograd with snapshot monitors and comparison of later results', note='')


prop('C38', 'What a call computed is released; recomputation and buffers save memory',
     '''Nothing accumulates: once the caller drops octrees, clouds, batches and results, repeated calls, training steps,
     evaluations and epochs over ever new data leave no tensor, octree or cloud of earlier ones
     alive, neither in the library nor in its modules, models and collators, which live on (tables that do not depend on the data aside).
     Between forward and backward a buffered convolution keeps no more than its input, weights and
     output, whatever the kernel and the buffer size, and residual blocks with recomputation
     keep only the inputs of the blocks, also when the features need no gradient, with the same
     results. Evaluation under no_grad keeps no graph.''',
     ['inputs', 'histories', 'configurations'], 'every public call, network and the data pipeline over new octrees; any kernel, '
     'buffer size, number of blocks',
     'Tests run each call once on a small octree and look only at its values.',
     ['ocnn/octree', 'ocnn/nn', 'ocnn/modules', 'ocnn/models', 'ocnn/dataset.py'],
     [('OctreeConvFunction', 'ocnn/nn/octree_conv.py'), ('OctreeResBlocks', 'ocnn/modules/resblocks.py'), ('CollateBatch', 'ocnn/dataset.py')],
     ['weak references to every storage made by any operation', 'weak references to octrees and clouds', 'tensors saved for backward'],
     tech='leak monitor below autograd: weak references to all storages over repeated calls; saved-tensor hooks', note='')


def main():
    claimed = set(sys.argv[1:])
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps(p) + '\n')
    sys.path.insert(0, HERE)
    checks, na = [], []
    for p in P:
        pid = p['id']
        if claimed and pid not in claimed:
            na.append(dict(property=pid, reason='the check is not built yet'))
            continue
        t, n = TECH[pid]
        checks.append(dict(
            property=pid, quick_cmd='./check.sh %s quick' % pid,
            thorough_cmd='./check.sh %s thorough' % pid,
            evidence_file='evidence/%s.json' % pid,
            technique='runtime monitoring: ' + t, level='exploration',
            level_note='Held on the executions driven by seeded random and hostile workloads (counts in '
                       'the evidence file), decided by an oracle that shares no code with ocnn; '
                       'CPU only.' + (' ' + n[0].upper() + n[1:] + '.' if n else '')))
    json.dump(dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
                   notes='No hooks in /repo: all monitors observe the public API from outside.'),
              open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)


if __name__ == '__main__':
    main()

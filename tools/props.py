"""The properties; `python3 tools/props.py` writes properties.jsonl and MANIFEST.json."""
import glob
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OC, PT, SK = 'ocnn/octree/octree.py', 'ocnn/octree/points.py', 'ocnn/octree/shuffled_key.py'
NN = 'ocnn/nn/'

P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note):
  P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                files=files, mech=mech, technique=technique, note=note))


prop('C01', 'Shuffled keys are an exact, ordered, hierarchical encoding',
     'Encoding integer cell coordinates of any supported depth with a batch index and decoding '
     'the key returns the same coordinates and batch index. Keys of different cells differ, sort '
     'by batch index and then in Z-order, and the key of the parent cell is the key without its '
     'last three bits. Fractional coordinates encode the cell that contains them.',
     ['inputs'], 'every depth 1..16, all coordinates in [0, 2^depth), batch index absent, int or '
     'tensor below 2^15, integer and float dtypes',
     'The test compares 3 fixed arrays of random coordinates with a table; the lookup-table byte '
     'boundaries (depth 8/9), the highest cells and large batch indices are never reached.',
     [SK], [('lookup tables for encoding and decoding', SK + ':KeyLUT'),
            ('xyz2key/key2xyz', SK)],
     'property-based testing: round trip, bitwise reference model and order/parent relations',
     'Random and boundary-biased coordinates at every depth against a bit-by-bit Morton model.')

prop('C02', 'An octree holds exactly the occupied cells and their ancestors',
     'Building an octree from points stores at the leaf layer exactly the cells that contain a '
     'point, sorted by key, marks a node non-empty exactly if a point lies in it, and stores '
     'below the full layers exactly the eight children of every non-empty node. Layers up to the '
     'full depth contain every cell. Node numbers, masks, coordinates and batch indices reported '
     'by the octree agree with this, for a single cloud and for a batch.',
     ['inputs', 'configurations'], 'every point cloud in [-1, 1]^3 including its faces, every '
     'depth, full depth and batch',
     'The tests build a handful of 3-point or stored clouds at depths 3-6; they cannot cover '
     'every placement of points (octant borders, the faces at +-1, empty samples, deep trees).',
     [OC], [('build_octree', OC), ('octree_grow_full', OC), ('xyzb/key/batch_id/nempty_mask', OC)],
     'property-based testing against a reference octree built with plain integer sets',
     'Structured generators (corners, faces, clusters, boxes, bulk) against an independent model.')

prop('C03', 'Leaf signals are averages of the points of the leaf, returned as documented',
     'The position, normal and feature of every non-empty leaf are the averages of the points in '
     'it (normals normalised to unit length), and the index returned when building maps every '
     'point to its leaf. Input features for any feature string, for all or non-empty nodes, and '
     'the conversion to points return these values in the documented order, zero on empty nodes.',
     ['inputs', 'configurations'], 'every cloud with any subset of attributes, any batch, every '
     'feature string',
     'Tests check averages for one stored cloud and never check the point index, most feature '
     'strings or the conversion back to points.',
     [OC], [('scatter_add averages in build_octree', OC), ('get_input_feature', OC),
            ('to_points', OC)],
     'property-based testing against explicit per-leaf averages on an exact grid',
     'Exact-grid data, so averages are compared to float rounding only.')

prop('C04', 'The octree is a function of the set of points, consistent across resolutions',
     'Reordering or repeating points, or moving points inside of their cells, does not change the '
     'structure of the octree (reordering and uniform repetition do not change the signals). '
     'Building with a smaller depth gives exactly the upper layers of the deeper octree, a '
     'reflection of the cloud gives the reflected octree, and the octree of a subset of the '
     'points is contained in the octree of all points.',
     ['inputs'], 'arbitrary float clouds with up to tens of thousands of points',
     'Metamorphic relations over pairs of builds are not tested at all.',
     [OC], [('build_octree', OC), ('sorting and unique of keys', OC)],
     'property-based testing: metamorphic relations between two builds',
     'Arbitrary float data, no model needed; six relations.')

prop('C05', 'Merging a batch loses nothing, mixes nothing and changes no input',
     'The merged octree of several samples is the octree of the samples with their batch '
     'indices: structure, signals, per-sample node counts and neighbours of each sample are those '
     'of the sample alone, shifted. It equals the octree built from the merged points, and the '
     'octrees and points that were merged are unchanged.',
     ['inputs', 'histories'], 'any number of samples, empty samples, repeated samples, with or '
     'without signals; octrees built from points or grown',
     'Tests merge two or three stored octrees once; repeated or empty samples, many samples and '
     'modification of the inputs are not examined.',
     [OC, PT], [('merge_octrees', OC), ('merge_points', PT)],
     'property-based testing against the reference batch and the unmerged samples',
     'Up to 40 samples per batch; every layer compared.')

prop('C06', 'Neighbourhoods are the geometric neighbours',
     'For every layer, kernel shape, stride and choice of all or non-empty nodes, the '
     'neighbourhood table lists for each node and kernel offset exactly the stored node at that '
     'offset in the same sample, and -1 exactly if there is none. Neighbours never wrap around '
     'the volume or cross into another sample.',
     ['inputs', 'configurations'], 'every octree with full_depth >= 1 x 8 kernels x 2 strides x '
     '2 modes x every layer',
     'One stored octree with a stored table; wrong entries that appear only for particular '
     'adjacent octants, batches or kernels are not reachable.',
     [OC], [('construct_all_neigh / construct_neigh', OC), ('get_neigh', OC),
            ('parent/direction lookup tables', OC)],
     'property-based testing against brute-force geometric neighbour search',
     'Every layer of every generated octree is compared entry by entry.')

prop('C07', 'Searching finds exactly the queried node or reports its absence',
     'Looking up integer or fractional positions (or keys) at a layer returns the index of the '
     'node that contains the position in that sample, and -1 exactly if no such node is stored '
     '(or, for searches among non-empty nodes, if it is empty).',
     ['inputs'], 'every octree and every list of queries in the volume',
     'One test with three queries; queries after the last key, in other samples or in empty nodes '
     'are not covered.',
     [OC], [('search_key / search_xyzb', OC)],
     'property-based testing against dictionary lookup in the reference model',
     'Queries mix hits, near misses, other samples and both ends of the key range.')

prop('C08', 'Splitting and growing realises exactly the given splits',
     'After splitting a layer with a mask and growing, the next layer consists of exactly the '
     'eight children of every marked node, in order, for every sequence of split, grow, re-split '
     'and re-grow steps. Replaying the occupancy of an existing octree reproduces it.',
     ['histories', 'inputs'], 'every history of initialise/split/grow/re-split/neighbour steps, '
     'every mask including all-zero ones, any batch size',
     'The test replays one stored octree once; no re-splitting, empty masks or batches.',
     [OC], [('octree_split', OC), ('octree_grow', OC), ('init_octree', OC)],
     'stateful property-based testing: histories against the reference octree',
     'The reference is compared after every step of the history.')

prop('C09', 'Octree convolution is the sum over existing neighbours, however computed',
     'The output of a convolution at a node is the bias plus the sum over kernel offsets of the '
     'weight times the value of the neighbour at that offset, absent neighbours counting as zero, '
     'for every kernel shape, stride and node mode. The direct method, the buffered method and '
     'every buffer size give the same result. On a full layer it is the dense 3-D convolution.',
     ['inputs', 'configurations'], 'every octree, layer, kernel, stride, node mode, dtype, memory '
     'layout, number of channels and buffer size',
     'The convolution tests need stored reference data for a few configurations (and are not '
     'among the reliable ones); buffer chunk boundaries and batches are not reached.',
     [NN + 'octree_conv.py'], [('octree_conv_forward chunks', NN + 'octree_conv.py:_OctreeConv'),
                               ('direct method through octree2col', NN + 'octree_conv.py')],
     'differential property-based testing: brute force, torch conv3d and the two methods',
     'Integer data makes every float32 result exact; compared bit by bit.')

prop('C10', 'Octree deconvolution is the transpose of the convolution',
     'A deconvolution scatters the value of each node with its weights onto the neighbours in the '
     'finer (or same) layer, and <conv(x), y> equals <x, deconv(y)> for the same weights. Direct '
     'and buffered methods with any buffer size give the same result.',
     ['inputs', 'configurations'], 'as for the convolution, with every layer it can be applied to',
     'Same as for the convolution: few stored configurations.',
     [NN + 'octree_conv.py'], [('OctreeDeconv', NN + 'octree_conv.py'),
                               ('_OctreeDeconv', NN + 'octree_conv.py')],
     'property-based testing: explicit scatter and the adjoint identity on exact data',
     'Integer data, bit-exact comparison.')

prop('C11', 'Gradients of the operators are the exact adjoints of their forward maps',
     'Back-propagation through convolutions (both methods), depth-wise and group convolutions, '
     'pooling, padding, upsampling, gathering and interpolation yields exactly the transposed '
     'linear map for data, weights and bias, whichever of them require gradients. This also holds '
     'when one module is applied to several octrees or layers before the backward passes run, in '
     'any order, and if data and weights have different floating point types or automatic mixed '
     'precision is on.',
     ['inputs', 'histories', 'configurations'], 'every octree, configuration, subset of tensors '
     'requiring gradients, and interleaving of forward and backward passes',
     'Tests compare one forward/backward pair; state kept between forward and backward is only '
     'exercised by histories.',
     [NN + 'octree_conv.py', NN + 'octree_dwconv.py', NN + 'octree_gconv.py', NN + 'octree2col.py',
      NN + 'octree_pool.py', NN + 'octree_pad.py', NN + 'octree_interp.py'],
     [('autograd functions', NN + 'octree_conv.py:OctreeConvFunction'),
      ('col2octree', NN + 'octree2col.py')],
     'stateful property-based testing: forward/backward histories against exact adjoints',
     'Adjoints come from explicit references or from unit-vector probing of the operator.')

prop('C12', 'Depth-wise and group convolutions are restricted plain convolutions',
     'A depth-wise convolution equals the plain convolution with diagonal weights, and a group '
     'convolution the plain convolution with block-diagonal weights, for every kernel, stride, '
     'node mode and buffer size.',
     ['inputs', 'configurations'], 'every octree, layer, kernel, stride, group number and mode',
     'One test compares the depth-wise convolution on one octree; group convolution has none.',
     [NN + 'octree_dwconv.py', NN + 'octree_gconv.py'],
     [('OctreeDWConv', NN + 'octree_dwconv.py'), ('OctreeGroupConv', NN + 'octree_gconv.py')],
     'differential property-based testing against brute force and OctreeConv',
     'Integer data, bit-exact comparison.')

prop('C13', 'Gathering neighbours and its inverse are exact and adjoint',
     'octree2col returns for each node and offset the value of the neighbour or zero, col2octree '
     'sums the values back, and the two are adjoint for every kernel, stride and node mode.',
     ['inputs', 'configurations'], 'every octree, layer, kernel, stride, mode, dtype and layout',
     'No reliable test exercises them directly.',
     [NN + 'octree2col.py'], [('octree2col', NN + 'octree2col.py'),
                              ('col2octree', NN + 'octree2col.py')],
     'property-based testing against explicit gather/scatter and the adjoint identity',
     'Integer data, bit-exact comparison.')

prop('C14', 'Pooling reduces exactly each node\'s children, window or sample',
     'Max pooling returns the maximum over the stored children of each node and unpooling puts '
     'the value back at the maximal child, average pooling the mean over the existing nodes of '
     'the window, and global pooling the mean over the nodes of each sample. No other node '
     'contributes, for all or non-empty nodes and for batches with empty samples.',
     ['inputs', 'configurations'], 'every octree, layer, kernel, stride, mode and batch',
     'One test of average pooling on one octree; indices, unpooling, empty samples and batches '
     'are not covered.',
     [NN + 'octree_pool.py'], [('octree_max_pool/unpool', NN + 'octree_pool.py'),
                               ('octree_avg_pool', NN + 'octree_pool.py'),
                               ('octree_global_pool', NN + 'octree_pool.py')],
     'property-based testing against explicit reductions over child/window/sample lists',
     'Max pooling of non-empty nodes is not judged on parents without any non-empty child.')

prop('C15', 'Changing the representation moves no value to another node',
     'Padding the features of non-empty nodes to all nodes and removing the padding again returns '
     'the same values, empty nodes receive the fill value, and the voxel grid holds the value of '
     'each node at its coordinates and sample and zeros elsewhere.',
     ['inputs', 'configurations'], 'every octree, layer, dtype, channel number and fill value',
     'One padding test on one octree (not reliable); voxelisation is untested.',
     [NN + 'octree_pad.py', NN + 'octree2vox.py'],
     [('octree_pad/depad', NN + 'octree_pad.py'), ('octree2voxel', NN + 'octree2vox.py')],
     'property-based testing: round trips and placement by reference coordinates',
     'Exact comparison.')

prop('C16', 'Interpolation reads the right nodes with the right weights',
     'Nearest interpolation at a point returns the value of the node containing it (zero if there '
     'is none), linear interpolation the trilinear combination over the existing surrounding '
     'nodes of the same sample with weights normalised to one. Upsampling gives each node the '
     'value of its ancestor (nearest) or the linear interpolation at its centre. The query points '
     'are not modified.',
     ['inputs', 'configurations'], 'every octree, layer, mode and list of query points in or at '
     'the border of the volume',
     'Two tests on one octree with the points of the octree itself; borders, missing neighbours '
     'and several samples are not reached.',
     [NN + 'octree_interp.py'], [('octree_nearest_pts/linear_pts', NN + 'octree_interp.py'),
                                 ('octree_upsample', NN + 'octree_interp.py')],
     'property-based testing against explicit trilinear sums over the reference model',
     'Queries on a 1/32-cell grid make the weights exact; real-valued queries additionally.')

prop('C17', 'Octree normalisation uses the statistics of each sample and group only',
     'Group and instance normalisation give every sample and channel group zero mean and unit '
     'variance over its own nodes, then apply the affine weights; the result for a sample does '
     'not depend on the other samples of the batch.',
     ['inputs', 'configurations'], 'every octree batch, layer, node mode, group number and data',
     'Tests use one stored batch of two samples and one layer.',
     [NN + 'octree_norm.py'], [('OctreeGroupNorm', NN + 'octree_norm.py')],
     'property-based testing against float64 statistics and the sample alone',
     'Tolerances cover the documented epsilon only.')

prop('C18', 'Dropping paths decides once per sample and is unbiased',
     'In training each sample of the batch is either set to zero or multiplied by 1/keep as a '
     'whole with the configured probability, independently of the others; without scaling it is '
     'kept as it is. In evaluation, or with probability zero, the data are unchanged.',
     ['inputs', 'configurations'], 'every octree batch, layer, probability, mode and random seed',
     'One test at one probability and layer with a fixed seed.',
     [NN + 'octree_drop.py'], [('OctreeDropPath', NN + 'octree_drop.py')],
     'property-based testing over seeds: per-sample invariant and frequency bound',
     'The frequency test has a 6-sigma bound per sample, with fixed derived seeds.')

prop('C19', 'Key search and octree alignment transfer values to the same nodes only',
     'Looking up values by sorted keys returns the value of the equal key and zero where there is '
     'none. Aligning features of a source octree to a target octree gives each target node the '
     'value of the source node with the same cell and sample, zero if absent.',
     ['inputs'], 'every pair of octrees and layer, every sorted key set and query list, any dtype',
     'One test with a fixed pair; queries outside of the key range are not covered.',
     [NN + 'octree_align.py'], [('search_value', NN + 'octree_align.py'),
                                ('octree_align', NN + 'octree_align.py')],
     'property-based testing against dictionary lookup',
     'Exact comparison.')

prop('C20', 'Geometric transforms of a point cloud compose as documented',
     'Every sequence of flips, rotations, translations, scalings, orientations and normalisations '
     'moves the points by the composition of the documented maps and the normals by the matching '
     'linear maps, leaves all other attributes untouched, and does not modify the tensors the '
     'cloud was made from.',
     ['histories', 'inputs'], 'every history of transforms and every cloud with any attributes',
     'Each test applies a single transform to one fixed cloud.',
     [PT], [('flip/rotate/translate/scale', PT), ('normalize/orient_normal', PT)],
     'stateful property-based testing against a float64 model',
     'Tolerances scale with the length of the history.')

prop('C21', 'Slicing, clipping, merging and saving keep each point\'s attributes together',
     'After every sequence of slicing, clipping, merging and moving, each point still carries its '
     'own normal, feature, label and sample, in the requested order, and clipping keeps exactly '
     'the points inside of the box and reports them in its mask. Saved files contain the same '
     'points.',
     ['histories', 'inputs'], 'every history of container operations on clouds with any subset of '
     'attributes',
     'One clipping test with three points.',
     [PT], [('__getitem__/clip/inbox_mask', PT), ('merge_points', PT), ('save', PT)],
     'stateful property-based testing with tagged points against a list model',
     'Every attribute carries a unique tag per point.')

prop('C22', 'Data augmentation applies one map of the declared family consistently',
     'The points and normals a data transform returns are those of the input under one affine map '
     'from the declared family (angles multiples of the interval within range, scale and jitter '
     'within bounds, flips only where allowed); without distortion they are the input. The mask '
     'marks exactly the points that stay in the box and the octree is built from exactly those.',
     ['inputs', 'configurations'], 'every configuration, cloud and random seed',
     'The dataset module has no tests.',
     ['ocnn/dataset.py', PT], [('Transform.transform / rnd_parameters', 'ocnn/dataset.py')],
     'property-based testing: the applied map is recovered from the output and judged',
     'Plus a distribution facet: every value of the family must be reachable.')

prop('C23', 'Collating yields the batch of the samples and leaves them alone',
     'The collated batch holds for every octree entry the merged octree of all samples with '
     'neighbours ready, for point entries the merged points (or the list), the labels as a '
     'tensor, and every other entry as a list in sample order; the samples are not modified. '
     'Raw clouds run through transform and collation give the octree of their in-box points.',
     ['inputs', 'configurations'], 'every list of samples and set of keys',
     'The dataset module has no tests.',
     ['ocnn/dataset.py'], [('CollateBatch', 'ocnn/dataset.py')],
     'property-based testing against the reference batch, also through a DataLoader',
     'Loaders run in-process (no worker processes).')

prop('C24', 'Classification networks judge every sample on its own, repeatably',
     'In evaluation the logits of a sample do not depend on the other samples in the batch, their '
     'order, or the order of its points; repeated evaluation gives identical results and modifies '
     'neither inputs nor parameters. Gradients of a batch are the sums of those of its samples, '
     'and every parameter receives one.',
     ['inputs', 'configurations', 'histories'], 'every configuration of the classification '
     'networks and every batch of clouds',
     'No model is tested.',
     ['ocnn/models/lenet.py', 'ocnn/models/resnet.py', 'ocnn/models/hrnet.py',
      'ocnn/modules/modules.py', 'ocnn/modules/resblocks.py'],
     [('LeNet', 'ocnn/models/lenet.py'), ('ResNet', 'ocnn/models/resnet.py'),
      ('HRNet', 'ocnn/models/hrnet.py')],
     'property-based testing: metamorphic relations between batches and single samples',
     'Random calibrated weights; tolerances relative to the logits.')

EXTRA = os.path.join(VERIF, 'tools', 'props_more.py')
if os.path.exists(EXTRA):
  exec(open(EXTRA).read())

NOT_APPLICABLE = []


def main():
  lines, checks = [], []
  for p in P:
    if not glob.glob(os.path.join(VERIF, 'checks', p['id'].lower() + '_*.py')):
      print('no check for', p['id'])
      continue
    assert len(p['title']) <= 80, p['title']
    lines.append(json.dumps({
        'id': p['id'], 'title': p['title'], 'statement': p['statement'],
        'quantifier': {'over': p['over'], 'text': p['text']},
        'why_tests_cant': p['why'],
        'anchors': {'files': p['files'],
                    'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}}))
    cmd = '/opt/venv/bin/python run_check.py ' + p['id']
    checks.append({'property': p['id'], 'quick_cmd': cmd + ' --tier quick',
                   'thorough_cmd': cmd + ' --tier thorough',
                   'technique': p['technique'], 'level': 'exploration',
                   'level_note': p['note'] + ' Search over generated inputs: a violation is '
                   'real and replayable, absence of one is evidence, not proof. CPU only.'})
  with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
    f.write('\n'.join(lines) + '\n')
  with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1, 'setup_cmd': '/opt/venv/bin/python tools/setup.py',
               'checks': checks, 'not_applicable': NOT_APPLICABLE,
               'notes': 'No hooks: the checks use the public API of the working tree only.'},
              f, indent=1)
    f.write('\n')


if __name__ == '__main__':
  main()

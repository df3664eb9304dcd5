MD, MO, PJ = 'ocnn/models/', 'ocnn/modules/', 'projects/'

prop('C25', 'Segmentation networks judge every query point on its own, repeatably',
     'In evaluation the logits of a query point depend only on its position and on the cloud of '
     'its sample: they are the same whatever other queries, in whatever order, and whatever other '
     'samples are in the batch, and whatever the order of the points. Repeated evaluation gives '
     'identical results and modifies neither octree, queries nor parameters. Translating scene '
     'and queries by whole coarse cells leaves the logits unchanged.',
     ['inputs', 'configurations', 'histories'], 'every configuration of SegNet and UNet, every '
     'batch of clouds and every list of queries in the volume',
     'No model is tested.',
     [MD + 'segnet.py', MD + 'unet.py', 'ocnn/nn/octree_interp.py', MO + 'modules.py',
      MO + 'resblocks.py'],
     [('SegNet', MD + 'segnet.py'), ('UNet', MD + 'unet.py'),
      ('OctreeInterp', 'ocnn/nn/octree_interp.py')],
     'property-based testing: metamorphic relations (permutation, selection, single sample, '
     'translation)',
     'Random calibrated weights; tolerances relative to the logits.')

prop('C26', 'Generative networks decode exactly the octree their predictions describe',
     'An octree decoded by AutoEncoder, OUNet or Image2Shape is well formed: each layer is split '
     'exactly at the nodes whose predicted split logit wins, and the signal has one row per '
     'non-empty leaf. Decoding guided by a given octree follows that octree and does not modify '
     'it, decoding guided by the freely decoded octree reproduces its logits, encoding followed '
     'by decoding equals the whole network, and a sample decodes the same alone and in a batch.',
     ['inputs', 'configurations', 'histories'], 'every configuration, every batch, every '
     'pattern of predictions (no node, some, all nodes split)',
     'No generative model is tested; wrong trees only show for particular prediction patterns.',
     [MD + 'autoencoder.py', MD + 'ounet.py', MD + 'image2shape.py',
      'ocnn/octree/octree.py'],
     [('AutoEncoder.decoder', MD + 'autoencoder.py'), ('OUNet.decoder', MD + 'ounet.py'),
      ('octree_split/octree_grow', 'ocnn/octree/octree.py')],
     'property-based testing against a reference tree grown from the predictions, plus '
     'metamorphic relations',
     'Split predictions are steered by biases so that all patterns occur.')

prop('C27', 'Modules are the compositions of operators their names state',
     'Every module (convolution, deconvolution, 1x1 and fully connected layers with batch '
     'normalisation and ReLU, residual blocks of both kinds, block sequences, input features) '
     'computes exactly the stated composition of operators, in training and evaluation, '
     'including its effect on running statistics. Checkpointed block sequences give the same '
     'outputs and gradients as plain ones.',
     ['inputs', 'configurations'], 'every module, channel numbers, stride, bottleneck, node '
     'mode and octree',
     'No module is tested.',
     [MO + 'modules.py', MO + 'resblocks.py'],
     [('OctreeConvBnRelu and others', MO + 'modules.py'),
      ('OctreeResBlock, OctreeResBlock2, OctreeResBlocks', MO + 'resblocks.py')],
     'property-based testing against a float64 composition of reference operators',
     'The reference operators are the independent models of C09, C10 and C14.')

prop('C28', 'Operators do not modify their inputs and have no hidden state',
     'The result of an operator depends only on its arguments and parameters: it is the same at '
     'any point of a history of other operations on the same octree and modules, with other '
     'threads at work on the same octree or their own, and under no_grad or inference mode; no '
     'operation modifies the data, the octree or the queries handed to it. What a whole network '
     'computes in training or evaluation depends on its inputs and its state dictionary only.',
     ['inputs', 'histories', 'schedules'], 'every sequence of operators and queries on a shared '
     'octree, in one thread or several, every sequence of uses of a network',
     'Tests call every operator once on a fresh octree, so caches and in-place updates that '
     'only show in a later call are invisible to them.',
     ['ocnn/nn/octree_conv.py', 'ocnn/nn/octree_pool.py', 'ocnn/nn/octree_interp.py',
      'ocnn/nn/octree_norm.py', 'ocnn/octree/octree.py'],
     [('all operators', 'ocnn/nn'), ('Octree queries', 'ocnn/octree/octree.py'),
      ('networks', 'ocnn/models')],
     'stateful property-based testing: generated histories on shared objects, every step '
     'compared with the same call on fresh objects',
     'Histories of up to 10 operations, with shrinking to a minimal history.')

prop('C29', 'Readers and data sets of the projects deliver what is in the files',
     'Point clouds written to a file are read back unchanged with exactly the requested '
     'attributes, and every data set of the projects returns, for every entry of its file list '
     'and however often it is read, the points, attributes, label and name of that file, '
     'attributes staying with their points; SemanticKITTI labels are mapped to the 19 classes '
     'of the benchmark. When scenes of ScanNet are augmented, points are moved by one smooth '
     'displacement field and colours by one map per scene, of bounded strength.',
     ['inputs', 'configurations', 'histories'], 'every point cloud, attribute subset, file '
     'format, file list and reading order',
     'The projects have no tests.',
     [PJ + 'datascts/utils.py', PJ + 'datascts/scannet.py', PJ + 'datascts/semantic_kitti.py',
      PJ + 'datascts/modelnet40.py', PJ + 'datascts/seg_shapenet.py',
      PJ + 'datascts/ae_shapenet.py', PJ + 'datascts/completion.py',
      PJ + 'datascts/image2shape.py', PJ + 'tools/utils.py', 'ocnn/dataset.py'],
     [('ReadPly/ReadNpz/ReadFile', PJ + 'datascts/utils.py'),
      ('read_file and label mapping', PJ + 'datascts/semantic_kitti.py'),
      ('save_points_to_ply', PJ + 'tools/utils.py')],
     'property-based testing: round trips through files and reference transforms',
     'Files live in a scratch directory that is removed after each case.')

prop('C30', 'The project solvers report and store exactly what the network predicted',
     'Losses, accuracies and IoUs reported by the segmentation, classification, auto-encoder, '
     'completion and image-to-shape solvers are those of the predictions on the points labelled '
     'above the mask; the network receives the octree, features and query points of the batch, '
     'whether the batch comes with octrees or with points only. Segmentation evaluation adds '
     'the class probabilities of every file over all epochs, at the points that were inside the '
     'box, and stores them once, after the last epoch. Decoded octrees become one point per '
     'non-empty leaf, at the predicted displacement from the cell centre along the predicted '
     'normal, split by sample and stored under the name of the sample. The network is the one '
     'the configuration names.',
     ['inputs', 'configurations', 'histories'], 'every batch, label pattern, clipping mask, '
     'file order and number of epochs',
     'The projects have no tests.',
     [PJ + 'segmentation.py', PJ + 'classification.py', PJ + 'autoencoder.py',
      PJ + 'completion.py', PJ + 'image2shape.py', 'ocnn/dataset.py'],
     [('SegSolver', PJ + 'segmentation.py'), ('ClsSolver', PJ + 'classification.py'),
      ('AutoEncoderSolver', PJ + 'autoencoder.py'),
      ('Image2ShapeSolver', PJ + 'image2shape.py')],
     'property-based testing against set-based numpy references; generated evaluation histories',
     'The network is a recording stand-in with known predictions; `.cuda()` is the identity.')

prop('C31', 'Tensor helpers and weight initialisation do what they state',
     'scatter_add adds every source value exactly once at its index along any axis, with index '
     'broadcasting, output size and given output as documented; cumulative sums, grids, truncated '
     'division and resized lists follow their definitions. The weights of every freshly built '
     'layer are drawn from the stated uniform distribution (bounds from fan-in and fan-out '
     'including groups), biases are zero, and the example octree is built from its six points at '
     'any depth.',
     ['inputs', 'configurations'], 'every shape, axis, index pattern and dtype; every layer kind '
     'and channel configuration',
     'Tests call scatter_add twice and never look at initial weights; an axis, a repeated index '
     'or a group count that is off stays invisible.',
     ['ocnn/utils.py', 'ocnn/nn/octree_conv.py', 'ocnn/nn/octree_gconv.py',
      'ocnn/nn/octree_dwconv.py'],
     [('scatter_add, broadcast', 'ocnn/utils.py'), ('cumsum, range_grid, trunc_div', 'ocnn/utils.py'),
      ('xavier_uniform_, reset_parameters', 'ocnn/utils.py')],
     'property-based testing against numpy loops and distribution bounds',
     'Integer-valued data, so sums are exact; weights are judged by hard bounds and by very wide '
     'statistical limits with fixed seeds.')

prop('C32', 'The ScanNet tools keep every vertex with its attributes through the pipeline',
     'Preprocessing writes for every scan exactly the vertices of the mesh with their positions, '
     'normals, colours and mapped labels; cutting into chunks covers the whole scan, each chunk '
     'holding exactly the points in its box with their attributes; merging the predictions of '
     'the chunks returns, for every vertex, the class with the largest summed prediction over '
     'the chunks that contain it; the submission names every vertex by the original id of its '
     'class; and the reported IoUs are those of the confusion matrix.',
     ['inputs', 'configurations'], 'every mesh, labelling, chunk layout and set of predictions',
     'The tools have no tests.',
     [PJ + 'tools/seg_scannet.py', PJ + 'tools/utils.py'],
     [('process_scannet, create_chunks, generate_output_seg, calc_iou', PJ + 'tools/seg_scannet.py')],
     'property-based testing: scripts run in a scratch directory against set-based references',
     'The scripts run from a copy of the working tree\'s tools inside a scratch directory.')

prop('C33', 'Networks train on the true gradient and survive being stored',
     'The gradient of a loss on the output of every network, with respect to its parameters and '
     'input signals, is the derivative of what the network computes. A network restored from its '
     'state dict, pickled or copied computes the same outputs as the original, and octrees and '
     'point clouds that were pickled, saved or copied hold the same data, independent of the '
     'original.',
     ['inputs', 'configurations'], 'every network and configuration, every octree and cloud',
     'No test differentiates a whole network or stores one.',
     [MD + 'lenet.py', MD + 'resnet.py', MD + 'segnet.py', MD + 'unet.py', MD + 'hrnet.py',
      MD + 'autoencoder.py', MD + 'ounet.py', MD + 'image2shape.py', 'ocnn/octree/octree.py',
      'ocnn/octree/points.py'],
     [('models', 'ocnn/models'), ('autograd functions', 'ocnn/nn/octree_conv.py'),
      ('Octree', 'ocnn/octree/octree.py'), ('Points', 'ocnn/octree/points.py')],
     'property-based testing: finite differences in float64, storage round trips',
     'Directional derivatives with two step sizes; kinks are recognised and skipped.')

prop('C34', 'The data preparation and checkpoint tools lose and invent nothing',
     'The tools that prepare ShapeNet, ModelNet40, the auto-encoder and image-to-shape data and '
     'SemanticKITTI write for every raw file exactly one converted file with its points, '
     'normals and labels (mapped as declared), sampled points lie on the mesh with the normal '
     'of their face and are normalised as requested, and every file list names exactly the '
     'files of its split and ratio with the right class. Upgraded checkpoints hold the same '
     'weights in the new layout, the listing counts every parameter, the clean-up removes '
     'exactly the superfluous checkpoints.',
     ['inputs', 'configurations'], 'every raw data set and checkpoint, every option of the tools',
     'The tools have no tests; a wrong label offset or split only shows in trained networks.',
     [PJ + 'tools/seg_shapenet.py', PJ + 'tools/ae_shapenet.py', PJ + 'tools/cls_modelnet.py',
      PJ + 'tools/image2shape.py', PJ + 'tools/seg_kitti.py', PJ + 'tools/utils.py',
      PJ + 'tools/upgrade_ckpt.py', PJ + 'tools/parse_ckpt.py', PJ + 'tools/cleanup_ckpt.py'],
     [('txt_to_ply, generate_filelist', PJ + 'tools/seg_shapenet.py'),
      ('convert_mesh_to_points, get_filelist', PJ + 'tools/cls_modelnet.py'),
      ('mesh2points, ply2npz, create_filelist', PJ + 'tools/image2shape.py'),
      ('save_points_to_ply', PJ + 'tools/utils.py'), ('upgrade_ckpt', PJ + 'tools/upgrade_ckpt.py')],
     'property-based testing: scripts run in a scratch directory on generated raw data, every '
     'written file compared with what was put in',
     'Downloads are replaced by files already in place.')

prop('C35', 'The documented project commands work in sequence, repeatably and resumably',
     'For every documented task (segmentation of ScanNet, SemanticKITTI and ShapeNet, '
     'classification of ModelNet40, completion, auto-encoder, image to shape) the documented '
     'commands run one after another on freshly prepared data with the shipped scripts and '
     'configurations: every command finds what the earlier ones wrote, training logs every '
     'epoch and stores its checkpoints, testing a stored checkpoint reports what training '
     'reported, evaluation writes one result per file, and the scores are those of the '
     'results. A training interrupted after any epoch and resumed ends with the same weights '
     'and log as an uninterrupted one.',
     ['inputs', 'configurations', 'histories', 'crash_points'], 'every data set, model '
     'configuration, number of epochs and interruption point',
     'Nothing tests the projects, let alone their commands in sequence.',
     [PJ + 'segmentation.py', PJ + 'classification.py', PJ + 'autoencoder.py',
      PJ + 'completion.py', PJ + 'image2shape.py', PJ + 'scripts/run_seg_scannet.py',
      PJ + 'scripts/run_seg_shapenet.py', PJ + 'configs/seg_scannet_eval.yaml'],
     [('SegSolver', PJ + 'segmentation.py'), ('ClsSolver', PJ + 'classification.py'),
      ('run_seg_scannet', PJ + 'scripts/run_seg_scannet.py'),
      ('run_seg_shapenet', PJ + 'scripts/run_seg_shapenet.py')],
     'property-based testing: generated data sets, documented command sequences, interruption '
     'and resumption compared with an uninterrupted run',
     'CPU, few epochs; networks with dropout and completion noise are not compared after a '
     'resume.')

prop('C36', 'Every network computes the function of its published architecture',
     'For every network the package offers (LeNet, ResNet, HRNet, SegNet, UNet in its default '
     'and in subclassed configurations, AutoEncoder, OUNet, Image2Shape), every configuration, '
     'every octree batch and every input feature, in training and in evaluation, the outputs '
     'are those of the published architecture: the stated sequence of convolutions, '
     'normalisations, pooling, residual blocks, skip connections, branches, transitions and '
     'heads, each applied to the right octree layer with the stated widths and block numbers. '
     'The parameters are exactly those the architecture names, each of the stated shape, so '
     'that published checkpoints load; training updates exactly the running statistics with '
     'the statistics of the batch, and the dropout of the classification heads drops each value '
     'with probability 1/2 and doubles the others, in training only.',
     ['inputs', 'configurations'], 'every network configuration, octree batch, weight and '
     'input feature',
     'The tests run most networks on one octree and check the number of outputs only: a '
     'skipped block, a swapped branch, a wrong layer or a wrong skip connection still returns '
     'outputs of the right shape and trains.',
     ['ocnn/models/lenet.py', 'ocnn/models/resnet.py', 'ocnn/models/hrnet.py',
      'ocnn/models/segnet.py', 'ocnn/models/unet.py', 'ocnn/models/autoencoder.py',
      'ocnn/models/ounet.py', 'ocnn/models/image2shape.py', 'ocnn/modules/modules.py',
      'ocnn/modules/resblocks.py'],
     [('LeNet.forward', 'ocnn/models/lenet.py'), ('ResNet.forward', 'ocnn/models/resnet.py'),
      ('HRNet.forward', 'ocnn/models/hrnet.py'), ('SegNet.forward', 'ocnn/models/segnet.py'),
      ('UNet.forward', 'ocnn/models/unet.py'),
      ('AutoEncoder.decoder', 'ocnn/models/autoencoder.py'),
      ('OUNet.decoder', 'ocnn/models/ounet.py')],
     'property-based testing: differential testing of whole networks in float64 against the '
     'architecture written out with reference operators on a reference octree',
     'Dropout is judged apart from the rest; SegNet is not judged where siblings tie in the max pooling; the '
     'image encoder of Image2Shape is the one of torchvision.')

prop('C37', 'The same call means the same, by position, by name, or with defaults left out',
     'For every public operator, module, network, octree and point cloud method, and every '
     'value of its arguments, it makes no difference whether an argument is given by position '
     'in the documented order, by its documented name, or left out because it equals its '
     'documented default: the results, the parameters created (under the same seed) and the '
     'objects afterwards are the same.',
     ['inputs', 'configurations'], 'every public callable, every argument value and every '
     'mixture of positional, named and omitted arguments',
     'The tests call each function in one style with one set of arguments; a changed default '
     'or a changed order of arguments silently changes the meaning of existing user code.',
     ['ocnn/nn/octree_conv.py', 'ocnn/nn/octree_gconv.py', 'ocnn/nn/octree_dwconv.py',
      'ocnn/nn/octree_pool.py', 'ocnn/nn/octree_interp.py', 'ocnn/nn/octree_norm.py',
      'ocnn/nn/octree_drop.py', 'ocnn/nn/octree_pad.py', 'ocnn/nn/octree2col.py',
      'ocnn/modules/modules.py', 'ocnn/modules/resblocks.py', 'ocnn/models/unet.py',
      'ocnn/models/autoencoder.py', 'ocnn/octree/octree.py', 'ocnn/octree/points.py',
      'ocnn/octree/shuffled_key.py', 'ocnn/utils.py'],
     [('OctreeConv.__init__', 'ocnn/nn/octree_conv.py'),
      ('OctreeGroupConv.__init__', 'ocnn/nn/octree_gconv.py'),
      ('Points.clip', 'ocnn/octree/points.py'), ('Octree.get_neigh', 'ocnn/octree/octree.py'),
      ('AutoEncoder.__init__', 'ocnn/models/autoencoder.py')],
     'property-based testing: generated calls in different styles compared with the fully '
     'named call',
     'The published order, names and defaults are the oracle; arguments that only bound the '
     'memory use have no observable meaning.')

import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech])))
D='pywt/_dwt.py';DX='pywt/_extensions/_dwt.pyx';CT='pywt/_extensions/c/convolution.template.c';WT='pywt/_extensions/c/wt.template.c'
CM='pywt/_extensions/c/common.c';MD='pywt/_multidim.py';ML='pywt/_multilevel.py';PX='pywt/_extensions/_pywt.pyx'
SW='pywt/_swt.py';SX='pywt/_extensions/_swt.pyx';WV='pywt/_extensions/c/wavelets.c';TB='pywt/_extensions/c/wavelets_coeffs.template.h'
WP='pywt/_wavelet_packets.py';TH='pywt/_thresholding.py';MR='pywt/_mra.py';CW='pywt/_cwt.py';CX='pywt/_extensions/_cwt.pyx';CC='pywt/_extensions/c/cwt.template.c'
FN='pywt/_functions.py';UT='pywt/_utils.py'
p('C01','Single-level DWT is perfectly invertible',
 'For every built-in discrete wavelet and every boundary extension mode, the single-level inverse DWT of the single-level DWT of a signal returns that signal up to rounding, with at most one extra trailing sample on axes of odd length. This holds in 1-D, 2-D and n-D, along any chosen axes, with a different wavelet and mode per axis, for real and complex data in single and double precision.',
 ['inputs','configurations'],'all data of every shape, every wavelet, mode, axis selection and dtype',
 'Tests sample random signals for a few lengths and wavelets; boundary handling has a case split for every (signal length, filter length, mode) relation and errors can hide in any single boundary sample.',
 [D,MD,DX,WT,CT],[('1-D transform',D+':dwt/idwt'),('n-D transform',MD+':dwtn/idwtn'),('axis kernels',DX+':dwt_axis/idwt_axis'),('convolution',CT+':downsampling_convolution / upsampling_convolution_valid_sf')])
p('C02','Multilevel DWT is perfectly invertible',
 'Multilevel reconstruction of a multilevel decomposition (1-D, 2-D and n-D) returns the original data up to rounding, cropped to at most one extra trailing sample per odd-length axis, for every number of levels, odd intermediate sizes, wavelets and modes given per axis, and selection of axes. The coefficient list has one approximation followed by the requested number of detail entries from coarsest to finest, each equal to repeated single-level transforms of the running approximation.',
 ['inputs','configurations','histories'],'all data, shapes, levels, wavelets, modes and axes',
 'Odd sizes at intermediate levels need a crop at the right level; tests use a few shapes, mostly powers of two.',
 [ML,MD,D],[('wavedec/waverec',ML+':wavedec,waverec'),('2-D',ML+':wavedec2,waverec2'),('n-D',ML+':wavedecn,waverecn'),('shape matching',ML+':_match_coeff_dims')])
p('C03','Forward DWT equals decimated convolution of the extended signal',
 'For any filter bank of any length, any signal and any extension mode, the approximation and detail coefficients are the odd-indexed samples of the convolution of the low-pass and high-pass decomposition filters with the signal extended on both sides exactly as the mode documents (periodization: circular on the even-padded signal). The one-sided partial decomposition to a given level yields the same coefficients as the corresponding repeated full transform.',
 ['inputs','configurations'],'all signals, filter coefficients, signal and filter lengths, modes, dtypes and memory layouts',
 'The kernel treats samples near each edge in separate loops per mode, including filters longer than the signal; existing tests compare a few signals with stored Matlab results.',
 [CT,WT,DX,D],[('kernel',CT+':downsampling_convolution'),('periodization kernel',CT+':downsampling_convolution_periodization'),('axis driver',WT+':downcoef_axis'),('partial',DX+':downcoef')])
p('C04','Inverse DWT equals filtering of the upsampled coefficients',
 'For any filter bank and any coefficient arrays the inverse single-level DWT is the valid part (periodization: circular, correctly aligned part) of the sum of the zero-upsampled coefficients filtered with the reconstruction filters. A missing coefficient array acts as zeros, multi-level partial reconstruction repeats the operation and truncates as requested, and mismatched coefficient lengths or two missing arrays are rejected with an error.',
 ['inputs','configurations'],'all coefficient arrays, filter coefficients, lengths, modes and axes',
 'Inverse kernels have separate even/odd, short-signal and wraparound code paths; tests only check them through round trips where errors on arbitrary coefficients cancel.',
 [CT,WT,DX,D],[('kernel',CT+':upsampling_convolution_valid_sf'),('periodization',CT+':upsampling_convolution_valid_sf_periodization'),('upcoef',DX+':upcoef'),('axis driver',WT+':idwt_axis')])
p('C05','Coefficient lengths and maximum levels are computed exactly',
 'The predicted coefficient length of a single-level transform is floor((n+f-1)/2), or ceil(n/2) for periodization, and the inverse length is its documented counterpart, for every 64-bit size for which no intermediate overflows. The maximum useful decomposition level is the largest L with (f-1)*2^L <= n (0 when impossible), the maximum stationary level is the number of times 2 divides n, and actual transforms produce arrays of exactly the predicted shapes.',
 ['inputs'],'all 64-bit data lengths, filter lengths and modes',
 'Tests check a few dozen lengths; off-by-one errors at powers of two or at large sizes are not sampled.',
 [CM,DX,SX,D],[('length formulas',CM+':dwt_buffer_length,reconstruction_buffer_length,idwt_buffer_length'),('levels',CM+':dwt_max_level, swt_max_level'),('python entry',DX+':dwt_max_level,dwt_coeff_len')])
p('C06','Compiled kernels stay in bounds and terminate',
 'For every signal length, filter length, mode, step and dilation that the library can pass to its compiled convolution kernels, the kernels read and write only inside the given buffers, write every output sample, perform no division by zero or signed overflow, and terminate. Inputs that the kernels cannot handle are rejected before they are reached.',
 ['inputs'],'all lengths, filter lengths, modes and kernel parameters within documented preconditions, arbitrary buffer contents',
 'An out-of-bounds read of a neighbouring sample usually goes unnoticed by value tests, and an infinite loop appears only at degenerate sizes.',
 [CT,WT,CM],[('kernels',CT+':all functions'),('drivers',WT+':downcoef_axis,idwt_axis,dec_a,rec_a,swt_')])
p('C07','Padding follows the documented extension of each mode',
 'Padding an array by any widths per axis extends it on both sides exactly as the chosen signal extension mode documents, leaving the original samples in place, for widths far larger than the signal and for zero widths on either side. Transforming a sufficiently padded signal agrees with transforming the original under that mode.',
 ['inputs','configurations'],'all arrays, pad widths (including zero and larger than the array) and modes',
 'Tests use a single array with a few widths; zero and multiply-wrapped widths per mode are not sampled.',
 [D,CT],[('pad',D+':pad')])
p('C08','Stationary transform equals the undecimated filter cascade',
 'For any filter bank the stationary transform at each level is the circular convolution of the previous approximation with the decomposition filters dilated by the corresponding power of two, so that circularly shifting the input shifts every output equally. Starting at a later level, trimming the approximations, the energy normalisation option and 2-D and n-D versions along any axes are all equivalent to the corresponding selection, scaling or per-axis application of that definition.',
 ['inputs','configurations'],'all signals of admissible length, filters, levels, start levels, axes and option combinations',
 'The dilated kernel is checked by tests on a few lengths with a few wavelets; wraparound at high levels with filters longer than the signal is special-cased.',
 [SW,SX,WT,CT],[('swt',SW+':swt,swt2,swtn'),('kernel driver',WT+':swt_'),('extension',SX+':swt,swt_axis')])
p('C09','Inverse stationary transform inverts the stationary transform',
 'The inverse stationary transform (1-D, 2-D and n-D) of the stationary transform of any admissible signal returns the signal up to rounding for every built-in discrete wavelet, every number of levels, chosen axes, per-axis wavelets, and with or without normalisation and trimmed approximations. The coefficient containers passed in are left unchanged.',
 ['inputs','configurations'],'all signals of admissible length, wavelets, levels, axes and options',
 'The inverse averages shifted inverse transforms with strided index arithmetic; tests sample a few sizes and wavelets.',
 [SW],[('iswt',SW+':iswt'),('iswt2',SW+':iswt2'),('iswtn',SW+':iswtn')])
p('C10','Orthogonal transforms preserve energy',
 'With an orthogonal wavelet and periodization on even sizes the total energy of all coefficients equals the energy of the input at every level of the discrete transform, and the normalised, trimmed stationary transform preserves energy at every level; inner products of any two signals are preserved in the same way. This holds in 1-D, 2-D and n-D and for the full separable transform.',
 ['inputs','configurations'],'all signals of admissible size, all orthogonal built-in wavelets and levels',
 'Tests check the energy of a few random signals; a scaling error that is self-consistent between forward and inverse passes round-trip tests.',
 [ML,SW,MD,TB],[('periodization kernel',CT+':downsampling_convolution_periodization'),('normalisation',SW+':swt,swt2,swtn')])
p('C11','Coefficient packing and unpacking are exact inverses',
 'Packing the coefficients of any 1-D, 2-D or n-D multilevel (or full separable) decomposition into one array or into one vector and unpacking them with the returned bookkeeping reproduces every coefficient at its own key and level, including odd and unequal sizes, chosen axes and coefficient types mixed between levels; missing (None) entries are rejected with an error. The recorded slices are disjoint, locate each coefficient exactly, leave padding filled with the requested value, and predicted shapes and sizes equal the actual ones.',
 ['inputs','configurations'],'all coefficient values and all structures produced by decompositions of any shape, level, wavelet and axes',
 'Tests round-trip a few power-of-two shapes where swapped or mis-sized slots cancel.',
 [ML],[('array packing',ML+':coeffs_to_array,array_to_coeffs'),('ravel',ML+':ravel_coeffs,unravel_coeffs'),('prediction',ML+':wavedecn_shapes,wavedecn_size')])
p('C12','n-D transforms are separable and independent across other axes',
 'A transform along chosen axes acts independently on every 1-D line (or sub-array) spanned by the remaining axes, gives the same result for every memory layout, and treats negative axes like their positive counterparts. An n-D transform equals successive 1-D transforms along its axes with coefficient keys naming the filter used per axis in order, and the 2-D interface is the same transform with horizontal, vertical and diagonal details in documented positions.',
 ['inputs','configurations'],'all arrays, shapes, strides, axes and axis orders, per-axis wavelets and modes',
 'Stride and axis mix-ups only show for non-square, non-contiguous or batch data that tests rarely use.',
 [MD,D,DX,WT,SW],[('dwtn/idwtn',MD),('strided kernels',WT+':downcoef_axis,idwt_axis'),('swt_axis',SX)])
p('C13','Fully separable transform round-trips and is separable',
 'The fully separable multilevel transform equals applying the 1-D multilevel transform along each chosen axis in turn, and its inverse returns the original data up to rounding, with at most one extra trailing sample on odd-length axes, for every wavelet, mode and level given per axis. Coefficients read or replaced by per-axis level address exactly the block they name.',
 ['inputs','configurations'],'all arrays, axes, per-axis levels, wavelets and modes',
 'Only a few shapes are tested; wrong slice bookkeeping for unequal levels or odd sizes is easy to miss.',
 [ML],[('fswavedecn',ML+':fswavedecn,fswaverecn'),('result',ML+':FswavedecnResult')])
p('C14','Wavelet packet trees are consistent',
 'In 1-D, 2-D and n-D packet trees every node holds the coefficients obtained by applying the single-level transform along its path, listing the nodes of a level in natural order covers each path exactly once, frequency order follows the Gray-code (sequency) ordering of sub-bands, and leaf and node traversals agree with the tree. Reconstructing from any complete set of leaves returns the original data up to rounding, and replacing or deleting a node affects exactly that sub-band.',
 ['inputs','histories'],'all data, wavelets, modes, axes, paths, levels, and histories of node access, replacement, deletion and reconstruction',
 'The tree is lazily built and mutable, so results may depend on access history; tests follow a handful of paths.',
 [WP],[('trees',WP+':BaseNode,Node,Node2D,NodeND'),('orders',WP+':get_graycode_order,WaveletPacket.get_level,WaveletPacket2D.get_level')])
p('C15','Multiresolution components sum to the signal',
 'The multiresolution analysis of any signal, in 1-D, 2-D and n-D, with either the decimated or the stationary transform, has components of the same shape as the data that sum to the data up to rounding. Component j depends only on the coefficients of its own level, and the inverse function does not modify the components it is given.',
 ['inputs','configurations'],'all data, wavelets, levels, axes, transforms and modes',
 'Tests check sums for a few wavelets and sizes.',
 [MR],[('mra',MR+':mra,mra2,mran'),('imra',MR+':imra,imra2,imran')])
p('C16','Thresholding follows its documented piecewise formulas',
 'Soft, hard, greater, less, non-negative garrote and firm thresholding map every element by their documented piecewise formula of its value (magnitude, for complex input) and the threshold, including values exactly at the threshold and exact zeros, with the given substitute for removed values, independently of the other elements and of their position. Input arrays are not modified.',
 ['inputs'],'all element values, thresholds, substitutes, array shapes and dtypes',
 'Boundary equality, zero magnitude and position dependence are measure-zero events for random tests.',
 [TH],[('threshold',TH+':threshold'),('firm',TH+':threshold_firm')])
p('C17','Built-in filter banks satisfy their algebraic identities',
 'Every built-in discrete wavelet gives four filters of its stated length whose analysis and synthesis pairs satisfy the perfect-reconstruction identity, with the stated orthogonality and biorthogonality flags and vanishing moments true of the coefficients, high-pass filters the alternating-sign mirror of the opposite low-pass, and reverse-biorthogonal families the time reversal of the biorthogonal ones. Single- and double-precision tables agree to single precision, the user-made filter bank helpers satisfy the same relations for any scaling filter, and a wavelet rebuilt from its own or its inverse filter bank has those filters.',
 ['configurations','inputs'],'all built-in wavelets and all user-supplied filters',
 'Tests check only some identities on some families; a digit error in a table changes results by little.',
 [TB,WV,PX,FN],[('tables',TB),('construction',WV+':discrete_wavelet'),('filter helpers',FN+':orthogonal_filter_bank,qmf'),('Wavelet',PX+':Wavelet')])
p('C18','Inputs are never modified and result dtypes are predictable',
 'No transform, inverse transform, packing or thresholding function modifies the arrays, lists or dictionaries it is given, and results do not alias the inputs in a way that lets later in-place edits of one corrupt the other. Single-precision real and complex inputs give single-precision results, half-precision is computed in single precision, all other real input is computed in double precision and complex input in complex precision.',
 ['inputs','configurations'],'all public transforms, input dtypes, containers and memory layouts',
 'Mutation and precision loss depend on the combination of function, dtype and layout; tests cover a few.',
 [D,MD,ML,SW,UT,PX],[('dtype rule',PX+':_check_dtype'),('transforms','pywt/*.py')])
p('C19','Transforms are linear, including over complex data',
 'Every discrete and stationary transform, its inverse, and multilevel versions are linear: the transform of any linear combination is that combination of transforms, and the transform of complex data is the transform of its real part plus i times that of its imaginary part. This holds for every wavelet, mode and axis and in both precisions.',
 ['inputs'],'all signals, scalars, wavelets, modes and axes',
 'Complex code paths are separate template instances or separate Python branches, tested on few inputs.',
 [D,MD,SW,DX,SX,CT],[('complex instances','pywt/_extensions/c/convolution.c'),('python branches',D+':dwt,idwt; '+MD+':dwtn')])
p('C20','Continuous transform is correlation with the scaled wavelet',
 'For each scale the direct-method continuous transform of any signal along any axis is the scaled derivative-of-integral correlation of the signal with the sampled wavelet, centred so that the output has the input length; it is linear in the data, independent across other axes and across scales. Scale-to-frequency and frequency-to-scale conversions are inverse to each other and proportional to the reciprocal, and output frequencies equal the conversion of each scale divided by the sampling period.',
 ['inputs','configurations'],'all signals, scales, wavelets, axes and sampling periods',
 'Centring and truncation depend on the parity of each (scale, length) pair; tests compare a few stored cases.',
 [CW,FN],[('cwt',CW+':cwt'),('frequency',FN+':scale2frequency,frequency2scale,central_frequency')])
p('C21','Continuous wavelet functions evaluate their documented formulas',
 'Sampled continuous wavelets equal their documented closed formulas at every point of the requested grid and for every parameter value: the Gaussian-derivative families are the stated derivative of the Gaussian with unit energy up to sign, Mexican hat, Morlet, complex Morlet, Shannon and frequency B-spline evaluate their published expression with the bandwidth, centre-frequency and order parameters given. Values are the same in single and double precision up to rounding.',
 ['inputs'],'all grid points, orders and wavelet parameters',
 'Tests check a few orders and grids; each of the Gaussian orders has its own polynomial and normalisation constant.',
 [CC,CX,PX],[('formulas',CC),('dispatch',CX+':cwt_psi_single'),('grid',PX+':ContinuousWavelet.wavefun')])
p('C22','Invalid arguments are rejected, not silently miscomputed',
 'Data that are empty along a transformed axis, unknown modes or wavelets, out-of-range or repeated axes, negative or excessive levels where documented as errors, lengths that are not multiples of the required power of two for stationary levels, and mismatched coefficient shapes raise an exception (ValueError, TypeError, IndexError, AxisError and the like) in every transform that applies at least one level, rather than returning a result, hanging or reading outside the data. Valid arguments, including mode and wavelet objects in place of names and negative axes, are accepted identically.',
 ['inputs','configurations'],'all argument combinations of the public transforms',
 'Each entry point has its own validation; tests sample a few bad arguments per function.',
 [D,MD,ML,SW,DX,SX,PX],[('validation',D),('axes',UT),('levels',ML+':_check_level')])
p('C23','Scaling and wavelet function approximation follows the cascade',
 'For any discrete wavelet and refinement level the approximated scaling and wavelet functions are the cascade of the reconstruction (and for biorthogonal wavelets, decomposition) filters, sampled on a grid spanning the stated support with the stated number of points and scaled by the square root of two per level. The integrated wavelet is the cumulative sum of that function times the grid step.',
 ['configurations'],'all discrete wavelets, filter coefficients and refinement levels',
 'Tests compare a few wavelets at one level with stored values.',
 [PX,FN,DX],[('wavefun',PX+':Wavelet.wavefun'),('integration',FN+':integrate_wavelet')])
p('C24','Calls are pure: no hidden state, safe from several threads',
 'The result of every public function depends only on its arguments (and, for wavelet objects, on the filters and attributes they have at the time of the call): it is what the same call gives as the first call after import, whatever was called before, including calls that raised, calls with other sizes, dtypes, modes, levels or options, calls with a different wavelet object of the same name, and calls made with the same objects before the caller changed the data in place or the wavelet attributes. Results and the lists returned by queries belong to the caller: overwriting them does not change later results, and later calls do not change earlier results. A wavelet object keeps its own copy of the filters it was given and is not changed by being used. Calls running at the same time in different threads, on the same wavelet object and the same input data or on others, return what each returns alone.',
 ['histories','schedules','inputs','configurations'],'all sequences of calls, all interleavings of two concurrent calls, all data and wavelets',
 'Every test calls a function with one set of arguments in one fresh order; stale caches and shared scratch memory show only for particular pairs of calls or preemption points, and the existing concurrency tests run identical calls and compare one result.',
 [DX,SX,PX,WT,CW,FN,SW,MD,ML,WP,MR,TH],[('C kernels without global state',WT+':all functions'),('calls without the interpreter lock',DX+':dwt_single,dwt_axis,idwt_single; '+SX+':swt'),('wavelet objects',PX+':Wavelet,ContinuousWavelet'),('wavelet queries',PX+':wavelist,families'),('rescaled filters',SW+':_rescale_wavelet_filterbank'),('integrated wavelets',FN+':integrate_wavelet')])
p('C25','Copies and pickles are equivalent to the originals',
 'A copied, deep-copied or pickled and unpickled Wavelet or ContinuousWavelet has the same name, dtype, filters and attributes as the original, including attributes set by the user, and every transform or function computed with it gives the same result. A copied, deep-copied or pickled wavelet packet tree (1-D, 2-D or n-D) or node has the same mode, axes, level limits, wavelet and nodes with the same data, including trees without root data and trees whose nodes were assigned, deleted or only partly decomposed, and decomposes and reconstructs alike; changing a deep or unpickled copy leaves the original unchanged. Results of decompositions and the slices describing packed coefficients survive copying and pickling in the same way.',
 ['inputs','configurations','histories'],'all wavelets and attribute settings, all packet data and tree states',
 'Tests pickle one wavelet object and one undisturbed tree and compare the filters or the root data only; what is lost shows later, in another process.',
 [PX,WP,ML],[('wavelets',PX+':Wavelet.__reduce__,Wavelet.__setstate__'),('continuous wavelets',PX+':ContinuousWavelet.__reduce__'),('packet trees',WP+':BaseNode,WaveletPacket,WaveletPacket2D,WaveletPacketND')])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80
        f.write(json.dumps(x)+'\n')
print(len(P))

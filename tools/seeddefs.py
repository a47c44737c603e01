SEEDS = []
def seed(id, prop, needs, breaks, edits, demo):
    SEEDS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo))
CONV = 'pywt/_extensions/c/convolution.template.c'
WT = 'pywt/_extensions/c/wt.template.c'
COMMON = 'pywt/_extensions/c/common.c'

seed('c06-smooth-single', 'C06', 'a signal of exactly one sample in smooth mode',
 'the kernel reads the sample after (or before) the only one',
 [(CONV, 'if (mode == MODE_SMOOTH && N < 2)', 'if (mode == MODE_SMOOTH && N < 1)')], '''
import numpy as np, pywt
big = np.full(64, 1e6); big[32] = 2.0
for d in (1, 2):
    a, _ = pywt.dwt(big[32:33], 'db2', 'smooth')
    b, _ = pywt.dwt(np.array([2.0]), 'db2', 'constant')
    assert np.allclose(a, b), (a, b)
''')

seed('c05-log2-double', 'C05', 'sizes beyond 2**53 whose quotient lies just below a power of two',
 'the maximum level is one too large because the quotient is rounded to double before the logarithm',
 [(COMMON, '#include "common.h"\n', '#include "common.h"\n#include <math.h>\n'),
  (COMMON, 'return size_log2(input_len/(filter_len-1));', 'return (unsigned char) floor(log2((double)(input_len/(filter_len-1))));')], '''
import pywt
for k in range(1, 62):
    for f in (2, 3, 4, 8):
        for n in ((f - 1) * 2 ** k, (f - 1) * 2 ** k - 1):
            if n < 2 ** 62 and n >= f - 1:
                want = 0
                while (f - 1) << (want + 1) <= n: want += 1
                assert pywt.dwt_max_level(n, f) == want, (n, f)
''')


seed('c03-antireflect-third', 'C03', 'antireflect mode, filter more than twice as long as the signal',
 'the right extension loses its running edge value after the second reflection (consistently for all outputs, so round trips still work)',
 [(CONV, """                for(k = 1; k < N && i-j >= N; ++j, ++k){
                    tmp = re + (input[k] - input[0]);
                    sum += filter[i-N-j]*tmp;
                }
                re = tmp;
            }
            break;
        }
""", """                for(k = 1; k < N && i-j >= N; ++j, ++k){
                    tmp = re + (input[k] - input[0]);
                    sum += filter[i-N-j]*tmp;
                }
                re = input[N-1];
            }
            break;
        }
"""), (CONV, """                //second reflection
                for(k = 1; k < N && i-j >= N; ++j, ++k){
                    tmp = re + (input[k] - input[0]);
                    sum += filter[i-N-j]*tmp;
                }
                re = tmp;
""", """                //second reflection
                for(k = 1; k < N && i-j >= N; ++j, ++k){
                    tmp = re + (input[k] - input[0]);
                    sum += filter[i-N-j]*tmp;
                }
                re = input[N-1];
""")], """
import numpy as np, pywt
x = np.array([1.5, -2.25, 7.0])
w = pywt.Wavelet('db9')
F = w.dec_len
p = pywt.pad(x, (F, F), 'antireflect')
for f, got in zip((w.dec_lo, w.dec_hi), pywt.dwt(x, w, 'antireflect')):
    full = np.convolve(p, f)
    want = full[F + 1:F + 1 + 2 * len(got):2]
    assert np.allclose(got, want), (got, want)
""")

seed('c03-downcoef-c8', 'C03', 'partial decomposition of single-precision complex data, details, two or more levels',
 'the level before the last one also applies the high-pass filter',
 [('pywt/_extensions/_dwt.pyx', """                coeffs = np.zeros(output_len, dtype=np.complex64)
                if do_dec_a or (i < level - 1):""", """                coeffs = np.zeros(output_len, dtype=np.complex64)
                if do_dec_a or (i + 2 < level):""")], """
import numpy as np, pywt
r = np.random.RandomState(0)
x = (r.randn(21) + 1j * r.randn(21)).astype(np.complex64)
for lev in (1, 2, 3):
    a = x
    for _ in range(lev):
        a, d = pywt.dwt(a, 'db2', 'symmetric')
    assert np.allclose(pywt.downcoef('d', x, 'db2', 'symmetric', lev), d, atol=1e-4), lev
""")

seed('c04-upcoef-f4-level', 'C04', 'partial reconstruction of single-precision details over two or more levels',
 'every level applies the high-pass reconstruction filter instead of only the first',
 [('pywt/_extensions/_dwt.pyx', """            rec = np.zeros(rec_len, dtype=np.float32)
            if do_rec_a or i > 0:""", """            rec = np.zeros(rec_len, dtype=np.float32)
            if do_rec_a:""")], """
import numpy as np, pywt
x = np.array([1., -2., 4., 3.])
for lev in (1, 2, 3):
    want = pywt.upcoef('d', x, 'db3', lev)
    assert np.allclose(pywt.upcoef('d', x.astype('f4'), 'db3', lev), want, atol=1e-4), lev
""")

seed('c09-iswtn-axes-order', 'C09', 'axes given in non-ascending order over unequal sizes',
 'sizes of the transformed axes are paired with the wrong axes, so part of the output is not reconstructed',
 [('pywt/_swt.py', 'coeff_trans_shape = tuple([shapes[0][ax] for ax in axes])', 'coeff_trans_shape = tuple([shapes[0][ax] for ax in sorted(axes)])')], """
import numpy as np, pywt
x = np.random.RandomState(0).randn(4, 8, 2)
for axes in ((0, 1), (1, 0), (-1, 0), (2, 1, 0), (1, 2)):
    c = pywt.swtn(x, 'db2', 1, axes=axes)
    assert np.allclose(pywt.iswtn(c, 'db2', axes=axes), x), axes
""")

seed('c08-norm-first-wavelet', 'C08', 'normalised n-D stationary transform with different wavelets per axis',
 'every axis uses the rescaled filters of the first wavelet',
 [('pywt/_swt.py', """        wavelets = [_rescale_wavelet_filterbank(wav, 1/np.sqrt(2))
                    for wav in wavelets]""", """        wavelets = [_rescale_wavelet_filterbank(wavelets[0] if wav.dec_len == wavelets[0].dec_len else wav, 1/np.sqrt(2))
                    for wav in wavelets]""")], """
import numpy as np, pywt
x = np.random.RandomState(0).randn(8, 8)
c = pywt.swtn(x, ('db4', 'sym4'), 1, norm=True)
assert np.allclose(pywt.iswtn(c, ('db4', 'sym4'), norm=True), x)
""")

seed('c14-walk-depth', 'C14', 'depth-first traversal with decompose=False of a tree with undecomposed nodes below the first level',
 'the traversal decomposes nodes below the first level although it was asked not to',
 [('pywt/_wavelet_packets.py', 'subnode.walk_depth(func, args, kwargs, decompose)', 'subnode.walk_depth(func, args, kwargs)')], """
import numpy as np, pywt
wp = pywt.WaveletPacket(np.arange(16.), 'db1', maxlevel=3)
wp['a']
seen = []
wp.walk_depth(lambda n: seen.append(n.path), decompose=False)
assert seen == ['a', 'd', ''], seen
""")

seed('c12-stride-zero', 'C12', 'input lines with stride zero along the transformed axis (broadcast arrays)',
 'the line is read from consecutive memory instead of repeating the one sample',
 [(WT, 'make_temp_input = input_info.strides[axis] != sizeof(TYPE);', 'make_temp_input = input_info.strides[axis] != sizeof(TYPE) && input_info.strides[axis];')], """
import numpy as np, pywt
b = np.broadcast_to(np.array([[1.], [5.], [-3.]]), (3, 6))
for ax in (0, 1):
    g, w = pywt.dwtn(b, 'db2', axes=(ax,)), pywt.dwtn(b.copy(), 'db2', axes=(ax,))
    for k in g:
        assert np.array_equal(g[k], w[k]), ax
""")


seed('c13-getitem-axes', 'C13', 'fully separable result over axes given in non-ascending order with different level counts',
 'the level numbers are paired with the sorted axes, so another subband is returned',
 [('pywt/_multilevel.py', 'for n, (ax, lev) in enumerate(zip(self.axes, levels)):', 'for n, (ax, lev) in enumerate(zip(sorted(self.axes), levels)):')], """
import numpy as np, pywt
x = np.random.RandomState(0).randn(16, 8)
r = pywt.fswavedecn(x, 'db1', axes=(1, 0), levels=(1, 2))
t = pywt.fswavedecn(x.T, 'db1', axes=(0, 1), levels=(1, 2))
for a in range(2):
    for b in range(3):
        assert np.allclose(r[(a, b)], t[(a, b)].T), (a, b)
""")

seed('c11-ravel-K', 'C11', 'detail arrays in Fortran order',
 'details are packed in memory order instead of index order and come back permuted',
 [('pywt/_multilevel.py', 'coeff_arr[sl] = d.ravel()', "coeff_arr[sl] = d.ravel(order='K')")], """
import numpy as np, pywt
x = np.random.RandomState(0).randn(8, 12)
c = pywt.wavedecn(x, 'db2', level=1)
c[1] = {k: np.asfortranarray(v) for k, v in c[1].items()}
b = pywt.unravel_coeffs(*pywt.ravel_coeffs(c))
for k in c[1]:
    assert np.allclose(b[1][k], c[1][k])
""")

seed('c18-mra-zeros', 'C18', 'single-precision complex data, stationary transform multiresolution analysis',
 'the shared zero array is real, so the components of complex64 data come back in another precision or wrong',
 [('pywt/_mra.py', ('z = np.zeros_like(wav_coeffs[0])', 0), 'z = np.zeros(wav_coeffs[0].shape, wav_coeffs[0].real.dtype)')], """
import numpy as np, pywt
x = (np.arange(8.) + 1j * np.arange(8.)[::-1]).astype('c8')
for c in pywt.mra(x, 'db2', 2, transform='swt'):
    assert c.dtype == np.complex64, c.dtype
""")

seed('c19-idwt-mixed', 'C19', 'real approximation and complex details of different precision',
 'the imaginary part of the details is dropped',
 [('pywt/_dwt.py', "if cA.dtype.kind == 'c' or cD.dtype.kind == 'c':", "if cA.dtype.kind == 'c':")], """
import warnings
import numpy as np, pywt
warnings.simplefilter('ignore')
a = np.array([1., 2., 3.]); d = np.array([1j, 2., 3.])
want = pywt.idwt(a.astype('c16'), d, 'db1')
assert np.allclose(pywt.idwt(a, d, 'db1'), want)
""")

seed('c14-update-children', 'C14', 'reconstruct(update=False) on a tree of two levels whose leaves were modified',
 'intermediate nodes are overwritten although no update was asked for',
 [('pywt/_wavelet_packets.py', 'data_a = node_a.reconstruct()  # TODO', 'data_a = node_a.reconstruct(True)  # TODO')], """
import numpy as np, pywt
wp = pywt.WaveletPacket(np.arange(8.), 'db1', maxlevel=2)
wp.get_level(2)
wp['aa'].data = np.zeros(2)
before = wp['a'].data.copy()
wp.reconstruct(update=False)
assert np.array_equal(wp['a'].data, before)
""")

seed('c16-garrote-le', 'C16', 'a value whose magnitude equals the threshold, garrote with a nonzero substitute',
 'the value equal to the threshold is substituted although only smaller ones are',
 [('pywt/_thresholding.py', ('cond = np.less(magnitude, value)', 1), 'cond = np.less_equal(magnitude, value)')], """
import numpy as np, pywt
r = pywt.threshold(np.array([1., -2., 2., 4.]), 2., 'garrote', substitute=7.)
assert np.allclose(r, [7., 0., 0., 3.]), r
""")

seed('c23-psi-sign', 'C23', 'biorthogonal wavelets whose reconstruction wavelet is negated together with the decomposition one',
 'the decomposition wavelet keeps its sign while the reconstruction wavelet is negated',
 [('pywt/_extensions/_pywt.pyx', 'keep(upcoef(False, n_mul_arr, other, level, 0),', 'keep(upcoef(False, n_arr, other, level, 0),')], """
import numpy as np, pywt
for w in ('bior2.2', 'bior2.4', 'bior1.3', 'rbio2.2', 'bior4.4'):
    phi_d, psi_d, phi_r, psi_r, x = pywt.Wavelet(w).wavefun(6)
    c = np.correlate(psi_d, psi_r, 'full') * (x[1] - x[0])
    assert c[np.argmax(np.abs(c))] > 0, w
""")

seed('c20-fft-grow', 'C20', 'fft method with scales in descending order',
 'the transform of the data is not recomputed when the padded size shrinks, so sizes disagree',
 [('pywt/_cwt.py', 'if size_scale != size_scale0:', 'if size_scale > size_scale0 or data.ndim == 1 and size_scale != size_scale0:')], """
import numpy as np, pywt
x = np.random.RandomState(0).randn(3, 40)
for scales in ([8., 4., 2.], [2., 30., 3.]):
    a, _ = pywt.cwt(x, scales, 'mexh', method='conv')
    b, _ = pywt.cwt(x, scales, 'mexh', method='fft')
    assert np.allclose(a, b)
""")

seed('c20-moveaxis', 'C20', 'data of three dimensions transformed along an axis other than the last two',
 'the transformed axis is restored with a swap although it was moved, so two other axes come out exchanged',
 [('pywt/_cwt.py', 'data = data.swapaxes(-1, axis)', 'data = np.moveaxis(data, axis, -1)')], """
import numpy as np, pywt
x = np.random.RandomState(0).randn(20, 3, 3)
a, _ = pywt.cwt(x, [2., 3.], 'mexh', axis=0)
for i in range(3):
    for j in range(3):
        b, _ = pywt.cwt(x[:, i, j], [2., 3.], 'mexh')
        assert np.allclose(a[:, :, i, j], b), (i, j)
""")

seed('c07-antisym-third', 'C07', 'antisymmetric padding wider than twice the length of the signal',
 'only the first reflection is negated, not every other one',
 [('pywt/_dwt.py', """                segment_slice = slice(max(0, l_edge - seg_width), l_edge)
                if n % 2:""", """                segment_slice = slice(max(0, l_edge - seg_width), l_edge)
                if n == 1:""")], """
import numpy as np, pywt
got = pywt.pad(np.array([1., 2.]), 7, 'antisymmetric')
ext = np.array([1., 2., -2., -1.])
want = ext[np.arange(-7, 9) % 4]
assert np.allclose(got, want), got
""")

seed('c12-temp-d-stride', 'C12', 'n-D inverse along the last axis with contiguous approximation and strided details',
 'the temporary row for the details is allocated or copied according to the approximation layout',
 [(WT, 'make_temp_coefs_d = have_d && d_info->strides[axis] != sizeof(TYPE);', 'make_temp_coefs_d = have_d && (have_a ? a_info : d_info)->strides[axis] != sizeof(TYPE);')], """
import numpy as np, pywt
r = np.random.RandomState(0)
a = r.randn(4, 6); d = r.randn(4, 6)
want = pywt.idwtn({'a': a, 'd': d}, 'db2', axes=(1,))
got = pywt.idwtn({'a': a, 'd': np.asfortranarray(d)}, 'db2', axes=(1,))
assert np.allclose(want, got)
""")


seed('c02-level-clamp', 'C02', 'more levels requested than the data supports',
 'the number of levels is silently reduced to the maximum although only a warning is documented',
 [('pywt/_multilevel.py', '''             "boundary effects.")
    return level
''', '''             "boundary effects.")
    return min(level, max(max_level, 1) + 2)
''')], """
import warnings
import numpy as np, pywt
warnings.simplefilter('ignore')
for L in range(1, 9):
    assert len(pywt.wavedec(np.arange(9.), 'db3', level=L)) == L + 1, L
    assert len(pywt.wavedec2(np.ones((5, 6)), 'db2', level=L)) == L + 1, L
    assert len(pywt.wavedecn(np.ones((3, 4)), 'db4', level=L)) == L + 1, L
""")

seed('c15-default-level', 'C15', 'an n-D stationary multiresolution analysis with the default level of data whose axes have different powers of two',
 'the default level is taken from the last axis only',
 [('pywt/_mra.py', '''        if level is None:
            level = min(swt_max_level(s) for s in axes_shapes)
        kwargs = {"wavelet": wavelets, ''', '''        if level is None:
            level = swt_max_level(axes_shapes[-1])
        kwargs = {"wavelet": wavelets, ''')], """
import numpy as np, pywt
for s in ((4, 8), (2, 6, 16), (8, 4)):
    x = np.random.RandomState(0).randn(*s)
    assert np.allclose(pywt.imran(pywt.mran(x, 'haar')), x), s
""")

seed('c22-idwt-d-shape', 'C22', 'n-D coefficients whose details are smaller than the approximation along an axis that is not transformed',
 'the mismatch is not detected and memory outside the details is read',
 [(WT, '''            if ((have_a && (a_info->shape[i] != output_info.shape[i])) ||
                (have_d && (d_info->shape[i] != output_info.shape[i])))''', '''            if ((have_a && (a_info->shape[i] != output_info.shape[i])) ||
                (!have_a && (d_info->shape[i] != output_info.shape[i])))''')], """
import numpy as np, pywt
for a, d, ax in (((3, 4), (2, 4), 1), ((4, 3), (4, 1), 0), ((2, 3, 4), (2, 2, 4), -1)):
    try:
        pywt.idwt(np.ones(a), np.ones(d), 'haar', axis=ax)
    except Exception as e:
        continue
    raise SystemExit('accepted %s %s' % (a, d))
""")

seed('c17-coif-phi', 'C17', 'the scaling-function moments of coiflets of order above one',
 'coifN reports 2N-1 vanishing moments of the scaling function only for N below 10, one less above',
 [('pywt/_extensions/c/wavelets.c', 'w->vanishing_moments_phi = 2*order -1;', 'w->vanishing_moments_phi = (order < 10) ? 2*order - 1 : 2*order;')], """
import pywt
for k in range(1, 18):
    w = pywt.Wavelet('coif%d' % k)
    assert w.vanishing_moments_phi == 2 * k - 1, k
""")

seed('c24-swt-scratch', 'C24', 'two stationary transforms of level above one with short filters running at the same time in threads with different wavelets or levels',
 'upsampled filters of up to 64 taps live in a static buffer that calls in other threads overwrite while it is read',
 [(WT, '''        if ((e_filter = wtcalloc(e_filter_len, sizeof(TYPE))) == NULL)
            goto cleanup;''', '''        static TYPE e_small[64];   /* short filters need no allocation */
        if (e_filter_len <= 64)
            e_filter = memset(e_small, 0, e_filter_len * sizeof(TYPE));
        else if ((e_filter = wtcalloc(e_filter_len, sizeof(TYPE))) == NULL)
            goto cleanup;'''),
  (WT, '''                                                   fstep);
        wtfree(e_filter);
        return ret;''', '''                                                   fstep);
        if (e_filter != e_small)
            wtfree(e_filter);
        return ret;''')], """
import sys, threading, time
import numpy as np, pywt
sys.setswitchinterval(1e-6)
x = np.random.RandomState(0).randn(64)
jobs = [(w, np.array(pywt.swt(x, w, 2, trim_approx=True))) for w in ('haar', 'db2', 'db3', 'bior2.2')]
bad = []
end = time.time() + 60
def work(w, e):
    while time.time() < end and not bad:
        for k in range(50):
            r = np.array(pywt.swt(x, w, 2, trim_approx=True))
            if not np.allclose(r, e):
                bad.append(w)
                return
ts = [threading.Thread(target=work, args=j) for j in jobs * 2]
[t.start() for t in ts]; [t.join() for t in ts]
assert not bad, bad
""")

seed('c24-swt-norm-cache', 'C24', 'normalised stationary transforms with two wavelets of the same name and different filters, one after the other',
 'the rescaled filter bank is cached by wavelet name, so that the second wavelet is transformed with the filters of the first',
 [('pywt/_swt.py', '''def _rescale_wavelet_filterbank(wavelet, sf):
    wav = Wavelet(''', '''_rescaled = {}


def _rescale_wavelet_filterbank(wavelet, sf):
    key = (wavelet.name, wavelet.dec_len, sf)
    if key in _rescaled:
        return _rescaled[key]
    wav = _rescaled[key] = Wavelet('''), ], """
import numpy as np, pywt
x = np.random.RandomState(0).randn(16)
w1 = pywt.Wavelet('mine', pywt.Wavelet('db3').filter_bank)
w2 = pywt.Wavelet('mine', pywt.Wavelet('coif1').filter_bank)
for w, n in ((w1, 'db3'), (w2, 'coif1')):
    w.orthogonal = True
    a = np.array(pywt.swt(x, w, 1, norm=True, trim_approx=True))
    b = np.array(pywt.swt(x, n, 1, trim_approx=True)) / np.sqrt(2)
    assert np.allclose(a, b), n
""")

seed('c24-cwt-psi-cache', 'C24', 'two continuous transforms with one wavelet object whose bandwidth or centre frequency was changed in between',
 'the integrated wavelet is cached by name and bounds only',
 [('pywt/_cwt.py', '    int_psi, x = integrate_wavelet(wavelet, precision=precision)\n', '''    key = (wavelet.name, wavelet.dt, wavelet.lower_bound, wavelet.upper_bound) \\
        if isinstance(wavelet, ContinuousWavelet) else None
    if key is None or key not in _psi:
        _psi[key] = integrate_wavelet(wavelet, precision=precision)
    int_psi, x = _psi[key]
'''), ('pywt/_cwt.py', 'def cwt(', '_psi = {}\n\n\ndef cwt(')], """
import numpy as np, pywt
x = np.random.RandomState(0).randn(50)
w = pywt.ContinuousWavelet('cmor1.5-1.0')
a = pywt.cwt(x, [2, 3.5], w)[0]
w.center_frequency = 0.5
w.bandwidth_frequency = 2.5
b = pywt.cwt(x, [2, 3.5], w)[0]
c = pywt.cwt(x, [2, 3.5], pywt.ContinuousWavelet('cmor2.5-0.5'))[0]
assert np.allclose(b, c)
""")

seed('c24-wavelist-cache', 'C24', 'a caller that edits the list returned by wavelist before asking again',
 'the lists of families are cached and handed out without a copy',
 [('pywt/_extensions/_pywt.pyx', '''    sorting_list = []  # for natural sorting order
    wavelets = []
''', '''    if family is not None and family in __wavelists:
        return __wavelists[family]
    sorting_list = []  # for natural sorting order
    wavelets = []
'''), ('pywt/_extensions/_pywt.pyx', '''        wavelets.append(name)
    return wavelets
''', '''        wavelets.append(name)
    if family is not None:
        __wavelists[family] = wavelets
    return wavelets
'''), ('pywt/_extensions/_pywt.pyx', "def wavelist(family=None, kind='all'):\n", "cdef dict __wavelists = {}\n\n\ndef wavelist(family=None, kind='all'):\n")], """
import pywt
for fam in pywt.families():
    a = pywt.wavelist(fam)
    n = len(a)
    a.remove(a[0])
    assert len(pywt.wavelist(fam)) == n, fam
""")

seed('c24-idwtn-scratch', 'C24', 'two n-D inverse transforms running at the same time in different threads',
 'the partially merged subbands are kept in a module-level dictionary that other threads clear',
 [('pywt/_multidim.py', '''        new_coeffs = {}
        new_keys = [''.join(coef) for coef in product('ad', repeat=key_length)]
''', '''        new_coeffs = _merged
        new_coeffs.clear()
        new_keys = [''.join(coef) for coef in product('ad', repeat=key_length)]
'''), ('pywt/_multidim.py', "        coeffs = new_coeffs\n\n    return coeffs['']", "        coeffs = dict(new_coeffs)\n\n    return coeffs['']"),
  ('pywt/_multidim.py', 'def idwtn(coeffs', '_merged = {}\n\n\ndef idwtn(coeffs')], """
import os, sys
import numpy as np, pywt
c1 = {'aa': np.ones((3, 3)), 'dd': np.eye(3)}
c2 = {'aa': np.eye(3), 'ad': np.ones((3, 3))}
e1, e2 = pywt.idwtn(c1, 'haar'), pywt.idwtn(c2, 'haar')
pre = os.path.dirname(pywt.__file__)
n = [0]
busy = [False]
def tr(f, ev, arg):
    if not f.f_code.co_filename.startswith(pre):
        return None
    if ev == 'line' and not busy[0]:        # another thread runs here
        import threading
        busy[0] = True
        r = []
        t = threading.Thread(target=lambda: r.append(pywt.idwtn(c2, 'haar')))
        t.start(); t.join()
        assert len(r) == 1 and np.allclose(r[0], e2)
        busy[0] = False
        n[0] += 1
    return tr
sys.settrace(tr)
r = pywt.idwtn(c1, 'haar')
sys.settrace(None)
assert n[0] > 10
assert np.allclose(r, e1)
""")

seed('c25-haar-number', 'C25', 'a copied or unpickled wavelet whose family number is zero',
 'family number zero is stored as none, so that copies of haar and dmey become custom filter banks that are not orthogonal',
 [('pywt/_extensions/_pywt.pyx', '            self.number = family_number\n        else:', '            self.number = family_number or None\n        else:')], """
import copy, pickle
import pywt
for n in ('haar', 'dmey', 'db2', 'bior2.2'):
    w = pywt.Wavelet(n)
    for c in (copy.copy(w), copy.deepcopy(w), pickle.loads(pickle.dumps(w))):
        assert (c.orthogonal, c.symmetry, c.family_name) == (w.orthogonal, w.symmetry, w.family_name), n
        assert len(c.wavefun(2)) == len(w.wavefun(2)), n
""")

seed('c25-bounds-order', 'C25', 'a continuous wavelet whose user-set bounds both lie above the default upper bound, copied or unpickled',
 'a lower bound above the current upper bound is ignored by the setter, and copies set the lower bound first',
 [('pywt/_extensions/_pywt.pyx', '''        def __set__(self, float value):
            self.w.lower_bound = value
''', '''        def __set__(self, float value):
            if value > self.w.upper_bound:
                return
            self.w.lower_bound = value
''')], """
import copy, pickle
import numpy as np, pywt
w = pywt.ContinuousWavelet('mexh')
w.upper_bound = 12.
w.lower_bound = 9.
for c in (copy.copy(w), copy.deepcopy(w), pickle.loads(pickle.dumps(w))):
    assert (c.lower_bound, c.upper_bound) == (9., 12.)
    for a, b in zip(c.wavefun(5), w.wavefun(5)):
        assert np.allclose(a, b)
""")

seed('c25-node-shape', 'C25', 'a copied or unpickled packet tree of odd-sized data, reconstructed from its nodes',
 'the size used for cropping is not part of the saved state of a node',
 [('pywt/_wavelet_packets.py', '''    def _init_subnodes(self):
        for part in self.PARTS:
            self._set_node(part, None)

    def _create_subnode(self''', '''    def __getstate__(self):
        # recomputed on demand
        return {k: (None if k == "_data_shape" else v)
                for k, v in self.__dict__.items()}

    def _init_subnodes(self):
        for part in self.PARTS:
            self._set_node(part, None)

    def _create_subnode(self''')], """
import copy, pickle
import numpy as np, pywt
x = np.arange(10.)
t = pywt.WaveletPacketND(x[:9], 'haar', maxlevel=2)
t.get_level(2)
for c in (copy.deepcopy(t), pickle.loads(pickle.dumps(t))):
    a, b = t['a'].reconstruct(), c['a'].reconstruct()
    assert a.shape == b.shape, (a.shape, b.shape)
""")

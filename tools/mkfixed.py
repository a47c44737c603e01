"""writes known_findings.json from /repo's fix: commits (run by hand after committing a fix)"""
import json, os, subprocess
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = [('pickling or copying', 'C25'), ('empty along the axis never', 'C22'), ('multilevel inverses trimmed', 'C22'), ('inverse stationary transforms accepted coefficients', 'C22'), ('sum of the levels wrapped', 'C22'), ('names were longer', 'C22'), ("method 'fft' accepted", 'C22'), ('accepted repeated axes when packing', 'C22'),
        ('iswt2 and iswtn dropped precision', 'C18'), ('n-D inverse transform of half', 'C18'), ('iswtn returned extended', 'C18'), ('greater and less thresholding wrapped', 'C16'), ('soft and garrote', 'C16'), ('garrote thresholding overflowed', 'C16'), ('threshold_firm', 'C16'), ('imra2', 'C15'), ('wavedecn_shapes', 'C05'),
        ('default level of mra2', 'C15'), ('failed on array_like', 'C15'), ('downcoef never returned', 'C06'), ('pad failed', 'C07'),
        ("accepted '' and 'ad'", 'C22'), ('repeated axes were', 'C22'), ('wavelet packets accepted', 'C22'), ('out of bounds for out-of-range', 'C22'),
        ('axes below -ndim', 'C22'), ('iswtn removed', 'C09'), ('byte-swapped', 'C18'), ('read-only', 'C18'), ('complex data given as lists', 'C19'), ('idwt accepted an n-D', 'C04'), ('idwtn returned None', 'C22'), ('coeffs_to_array and ravel', 'C11'), ('WaveletPacketND could not', 'C14'), ('packet node', 'C14'), ('packet level 0', 'C14')]
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], stdout=subprocess.PIPE, text=True).stdout.splitlines()
fixed = []
for l in log:
    h, s = l.split(' ', 1)
    if not s.startswith('fix:') or 'cwt ignored out-of-range axes' in s:    # the latter was taken back
        continue
    p = [b for a, b in PROP if a in s]
    assert len(p) == 1, (s, p)
    fixed.append('fixed: property=%s %s %s' % (p[0], h, s[5:]))
f = os.path.join(R, 'known_findings.json')
d = json.load(open(f)) if os.path.exists(f) else {'findings': []}
d['fixed'] = fixed
json.dump(d, open(f, 'w'), indent=1)
print('\n'.join(fixed))

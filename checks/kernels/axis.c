/* n-D drivers on a 2-D or 3-D array: axis, layout and coefficient kind symbolic; exact buffer sizes */
#define PRODI (S0 * S1 * S2)
static void strides(pywt_index_t *st, const size_t *sh, int order, size_t es) {
  if (order == 0) { st[2] = es; st[1] = es * sh[2]; st[0] = es * sh[1] * sh[2]; }
  else if (order == 1) { st[0] = es; st[1] = es * sh[0]; st[2] = es * sh[0] * sh[1]; }
  else { st[1] = es; st[2] = es * sh[1]; st[0] = es * sh[1] * sh[2]; }
}
int main(void) {
  INPUT(in_k); INPUT(in_coef);
  RANGE(in_coef, 0, 2);
  size_t sh[3] = {S0, S1, S2}, osh[3] = {S0, S1, S2};
#ifdef SWT
  size_t on = sh[AXIS];
#elif defined(IDWT)
  size_t on = MD == MODE_PERIODIZATION ? 2 * sh[AXIS] : 2 * sh[AXIS] - FF + 2;
#else
  size_t on = MD == MODE_PERIODIZATION ? (sh[AXIS] + 1) / 2 : (sh[AXIS] + FF - 1) / 2;
#endif
  osh[AXIS] = on;
  size_t total = osh[0] * osh[1] * osh[2];
  ASSUME(in_k >= 0 && (size_t)in_k < total);
  pywt_index_t ist[3], ost[3];
  strides(ist, sh, IL, sizeof(T)); strides(ost, osh, OL, sizeof(T));
  T *in = malloc(PRODI * sizeof(T)), *in2 = malloc(PRODI * sizeof(T)), *fl = malloc(FF * sizeof(T)), *out = malloc(total * sizeof(T));
  ASSUME(in && in2 && fl && out);
  FILL(in, PRODI, 1); FILL(in2, PRODI, 1); FILL(fl, FF, 1); FILL(out, total, 128);
  DiscreteWavelet w;
  w.dec_len = w.rec_len = FF;
  w.dec_lo_float = w.dec_hi_float = w.rec_lo_float = w.rec_hi_float = fl;
  ArrayInfo ii = {sh, ist, 3}, oi = {osh, ost, 3};
#ifdef IDWT
  int r = float_idwt_axis(WHICH & 1 ? in : NULL, WHICH & 1 ? &ii : NULL, WHICH & 2 ? in2 : NULL, WHICH & 2 ? &ii : NULL, out, oi, &w, AXIS, MD);
#elif defined(SWT)
  int r = float_downcoef_axis(in, ii, out, oi, &w, AXIS, in_coef, MODE_PERIODIZATION, LL, SWT_TRANSFORM);
#else
  int r = float_downcoef_axis(in, ii, out, oi, &w, AXIS, in_coef, MD, 0, DWT_TRANSFORM);
#endif
  CHECK(r == 0, "accepted");
  CHECK(out[in_k] != 128, "every output element is written");
  /* mismatching descriptions are refused */
  size_t bad[3] = {osh[0], osh[1], osh[2]};
  for (int a = 0; a < 3; a++) {
    bad[a] += 1;
    ArrayInfo bi = {bad, ost, 3};
#ifdef IDWT
    CHECK(float_idwt_axis(in, &ii, NULL, NULL, out, bi, &w, AXIS, MD) != 0, "wrong output shape is rejected");
#elif defined(SWT)
    CHECK(float_downcoef_axis(in, ii, out, bi, &w, AXIS, in_coef, MODE_PERIODIZATION, LL, SWT_TRANSFORM) != 0, "wrong output shape is rejected");
#else
    CHECK(float_downcoef_axis(in, ii, out, bi, &w, AXIS, in_coef, MD, 0, DWT_TRANSFORM) != 0, "wrong output shape is rejected");
#endif
    bad[a] -= 1;
  }
#ifdef IDWT
  CHECK(float_idwt_axis(NULL, NULL, NULL, NULL, out, oi, &w, AXIS, MD) != 0, "two missing inputs are rejected");
  CHECK(float_idwt_axis(in, &ii, NULL, NULL, out, oi, &w, 3, MD) != 0, "axis beyond the dimensions is rejected");
#else
  CHECK(float_downcoef_axis(in, ii, out, oi, &w, 3, in_coef, MODE_PERIODIZATION, 1, DWT_TRANSFORM) != 0, "axis beyond the dimensions is rejected");
#endif
  return 0;
}

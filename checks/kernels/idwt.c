/* reconstruction: NN coefficients, filters of FF taps; every mode; WHICH: 1 approximation only, 2 details only, 3 both */
int main(void) {
  INPUT(in_mode); INPUT(in_k);
  RANGE(in_mode, 0, MODE_MAX); ASSUME((in_mode == MODE_PERIODIZATION) == PER);
  size_t O = PER ? 2 * NN : 2 * NN - FF + 2;
  ASSUME(PER || 2 * NN + 2 > FF);
  ASSUME(in_k >= 0 && (size_t)in_k < O);
  T *a = malloc(NN * sizeof(T)), *d = malloc(NN * sizeof(T)), *fl = malloc(FF * sizeof(T)), *out = malloc(O * sizeof(T));
  ASSUME(a && d && fl && out);
  FILL(a, NN, 1); FILL(d, NN, 1); FILL(fl, FF, 1); FILL(out, O, 0);
  DiscreteWavelet w;
  w.dec_len = w.rec_len = FF;
  w.dec_lo_float = w.dec_hi_float = w.rec_lo_float = w.rec_hi_float = fl;
  int r = float_idwt(WHICH & 1 ? a : NULL, NN, WHICH & 2 ? d : NULL, NN, out, O, &w, in_mode);
  CHECK(r == 0, "accepted");
  CHECK(out[in_k] == (WHICH == 3 ? 2 : 1) * (FF / 2), "every output sums half of the taps");
  CHECK(float_idwt(a, NN, d, NN + 1, out, O, &w, in_mode) != 0, "different coefficient lengths are rejected");
  CHECK(float_idwt(NULL, NN, NULL, NN, out, O, &w, in_mode) != 0, "two missing inputs are rejected");
  CHECK(float_idwt(a, NN, d, NN, out, O + 1, &w, in_mode) != 0, "wrong output length is rejected");
  return 0;
}

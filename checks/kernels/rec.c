/* direct reconstruction (upcoef): NN coefficients, FF taps */
int main(void) {
  INPUT(in_k); INPUT(in_hi);
  size_t O = 2 * NN + FF - 2;
  ASSUME(in_k >= 0 && (size_t)in_k < O);
  T *a = malloc(NN * sizeof(T)), *fl = malloc(FF * sizeof(T)), *out = malloc(O * sizeof(T));
  ASSUME(a && fl && out);
  FILL(a, NN, 1); FILL(fl, FF, 1); FILL(out, O, 0);
  DiscreteWavelet w;
  w.dec_len = w.rec_len = FF;
  w.dec_lo_float = w.dec_hi_float = w.rec_lo_float = w.rec_hi_float = fl;
  int r = in_hi ? float_rec_d(a, NN, &w, out, O) : float_rec_a(a, NN, &w, out, O);
  CHECK(r == 0, "accepted");
  CHECK(out[in_k] >= 1 && out[in_k] <= FF / 2, "every output element is written");
  CHECK((in_hi ? float_rec_d(a, NN, &w, out, O + 1) : float_rec_a(a, NN, &w, out, O + 1)) != 0, "wrong output length is rejected");
  return 0;
}

/* stationary step at level LL */
int main(void) {
  INPUT(in_k); INPUT(in_hi);
  RANGE(in_k, 0, NN);
  T *in = malloc(NN * sizeof(T)), *fl = malloc(FF * sizeof(T)), *out = malloc(NN * sizeof(T));
  ASSUME(in && fl && out);
  FILL(in, NN, 1); FILL(fl, FF, 1); FILL(out, NN, 128);
  DiscreteWavelet w;
  w.dec_len = w.rec_len = FF;
  w.dec_lo_float = w.dec_hi_float = w.rec_lo_float = w.rec_hi_float = fl;
  int r = in_hi ? float_swt_d(in, NN, &w, out, NN, LL) : float_swt_a(in, NN, &w, out, NN, LL);
  if (NN % (1 << LL) == 0 && LL >= 1) {
    CHECK(r == 0, "accepted");
    CHECK(out[in_k] == FF, "every output sums all taps");
  } else {
    CHECK(r != 0, "level too large is rejected");
    CHECK(out[in_k] == 128, "output untouched");
  }
  return 0;
}

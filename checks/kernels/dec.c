/* decomposition: sizes NN, FF; every mode (PER: periodization or all others); byte-valued instantiation of the template */
int main(void) {
  INPUT(in_mode); INPUT(in_k); INPUT(in_hi);
  RANGE(in_mode, 0, MODE_MAX); ASSUME((in_mode == MODE_PERIODIZATION) == PER);
  ASSUME(!REJECTED(NN, in_mode));
  size_t O = PER ? (NN + 1) / 2 : (NN + FF - 1) / 2;
  ASSUME(in_k >= 0 && (size_t)in_k < O);
  T *in = malloc(NN * sizeof(T)), *fl = malloc(FF * sizeof(T)), *out = malloc(O * sizeof(T));
  ASSUME(in && fl && out);
  FILL(in, NN, 1); FILL(fl, FF, 1); FILL(out, O, 128);
  DiscreteWavelet w;
  w.dec_len = w.rec_len = FF;
  w.dec_lo_float = w.dec_hi_float = w.rec_lo_float = w.rec_hi_float = fl;
  int r = in_hi ? float_dec_d(in, NN, &w, out, O, in_mode) : float_dec_a(in, NN, &w, out, O, in_mode);
  CHECK(r == 0, "accepted");
  CHECK(out[in_k] != 128, "every output element is written");
  CHECK((in_hi ? float_dec_d(in, NN, &w, out, O + 1, in_mode) : float_dec_a(in, NN, &w, out, O + 1, in_mode)) != 0, "wrong output length is rejected");
  return 0;
}

/* coefficient arrays too short for the filter are refused without touching memory */
int main(void) {
  INPUT(in_mode);
  RANGE(in_mode, 0, MODE_MAX); ASSUME(in_mode != MODE_PERIODIZATION);
  T *a = malloc(NN * sizeof(T)), *fl = malloc(FF * sizeof(T)), *out = malloc(1);
  ASSUME(a && fl && out);
  FILL(a, NN, 1); FILL(fl, FF, 1); FILL(out, 1, 0);
  int r = float_upsampling_convolution_valid_sf(a, NN, fl, FF, out, 1, in_mode);
  CHECK(r != 0, "too short input is rejected");
  CHECK(out[0] == 0, "output untouched");
  return 0;
}

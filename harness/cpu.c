/* The capability code of /repo with its query made reachable.  CPU_CAPS_C is the path of third_party/cpu_caps.c. */
#include CPU_CAPS_C
#ifdef HAVE_CPU_HAS
int verif_has(int i) {
  switch (i) {
    case 0: return cpu_has(CMOV);
    case 1: return cpu_has(SSE);
    case 2: return cpu_has(SSE2);
    case 3: return cpu_has(SSE3);
    case 4: return cpu_has(SSSE3);
    case 5: return cpu_has(SSE4_1);
    case 6: return cpu_has(SSE4_2);
    case 7: return cpu_has(AVX);
    case 8: return cpu_has(AVX2);
    case 9: return cpu_has(BMI);
    case 10: return cpu_has(BMI2);
    case 11: return cpu_has(ADX);
  }
  return -1;
}
#endif

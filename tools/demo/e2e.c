#include "support.h"
int main(int c, char** a) {
  int bad = 0;
  for (int i = 1; i < c; i++) {
    tc_t t = load_case(a[i]); if (!t.method) { printf("%s: no test.json\n", a[i]); continue; }
    bytes_t p = prove(a[i], t.method, t.args, t.chain, C4_PROVER_FLAG_INCLUDE_CODE | C4_PROVER_FLAG_CHAIN_STORE);
    char* res = NULL;
    printf("%-45s %s proof %u -> ", a[i], t.method, p.len);
    if (!p.data) { printf("no proof\n"); continue; }
    printf("%d\n", check(a[i], p, t.method, t.args, t.chain, &res));
  }
}

// C30 monitor: the headers in one order in this translation unit and in another order in order2.cpp, linked together.
// The defines A1, A2, ... / B1, B2, ... name the headers. No other header is included before them.
#define INC(x) <vir/x.h>
#include INC(A1)
#ifdef A2
#include INC(A2)
#endif
#ifdef A3
#include INC(A3)
#endif
#ifdef A4
#include INC(A4)
#endif
#ifdef A5
#include INC(A5)
#endif
#ifdef A6
#include INC(A6)
#endif
#ifdef A7
#include INC(A7)
#endif
#ifdef A8
#include INC(A8)
#endif
#ifdef A9
#include INC(A9)
#endif
#ifdef A10
#include INC(A10)
#endif
#ifdef A11
#include INC(A11)
#endif
#ifdef A12
#include INC(A12)
#endif
#ifdef A13
#include INC(A13)
#endif
#ifdef A14
#include INC(A14)
#endif
#ifdef A15
#include INC(A15)
#endif
#ifdef A16
#include INC(A16)
#endif
#include "order_body.h"
#include "mon.h"
void other_unit(observed& o, int salt);
int main(int argc, char** argv)
{
  mon::init(argc, argv);
  for (int rep = 0; rep < 50; ++rep)
    {
      static observed a, b;
      a = observed(); b = observed();
      const int salt = int(mon::rng(rep + 7).below(100));
      body(a, salt);
      other_unit(b, salt);
      mon::begin("two translation units", "", salt, a.n);
      ++mon::evals; mon::nontrivial();
      mon::events += a.n + b.n;
      if (a.n >= 4000) mon::fail("too many observations");
      if (a.bad >= 0) mon::fail("first unit: wrong result of %s (observation %d)", a.w[a.bad], a.bad);
      if (b.bad >= 0) mon::fail("second unit: wrong result of %s (observation %d)", b.w[b.bad], b.bad);
      if (a.n != b.n) mon::fail("%d and %d observations", a.n, b.n);
      for (int i = 0; i < a.n and i < b.n; ++i)
        if (a.v[i] != b.v[i]) { mon::fail("observation %d (%s) differs between the units", i, a.w[i]); break; }
    }
  return mon::finish();
}

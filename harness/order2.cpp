// C30 monitor: the second translation unit, see order.cpp
#define INC(x) <vir/x.h>
#include INC(B1)
#ifdef B2
#include INC(B2)
#endif
#ifdef B3
#include INC(B3)
#endif
#ifdef B4
#include INC(B4)
#endif
#ifdef B5
#include INC(B5)
#endif
#ifdef B6
#include INC(B6)
#endif
#ifdef B7
#include INC(B7)
#endif
#ifdef B8
#include INC(B8)
#endif
#ifdef B9
#include INC(B9)
#endif
#ifdef B10
#include INC(B10)
#endif
#ifdef B11
#include INC(B11)
#endif
#ifdef B12
#include INC(B12)
#endif
#ifdef B13
#include INC(B13)
#endif
#ifdef B14
#include INC(B14)
#endif
#ifdef B15
#include INC(B15)
#endif
#ifdef B16
#include INC(B16)
#endif
#include "order_body.h"
void other_unit(observed& o, int salt) { body(o, salt); }

#include <goost/gost89/CFBSink.h>
#include <goost/gost89/CFBSource.h>
#define NS goost::gost89
#define REG 1
#define MKREG(r) (r)[0]
#define SINK(x) c11_sink##x
#define SOURCE(x) c12_source##x
#define ROUND(x) c12_round##x
#include "cfb.h"

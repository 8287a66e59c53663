#include <goost/magma/CFBSink.h>
#include <goost/magma/CFBSource.h>
#define NS goost::magma
#define REG 2
#define MKREG(r) (r)[0], (r)[1]
#define SINK(x) c13_sink##x
#define SOURCE(x) c14_source##x
#define ROUND(x) c14_round##x
#include "cfb.h"

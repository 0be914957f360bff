#pragma once
#include "vp.h"
#include <cslibs_path_planning/common/SimpleGridMap2d.h>
#include <cslibs_path_planning/common/RotatedGridMap2d.h>
using namespace lib_path;

struct Dim { unsigned w, h; double r; };
inline Dim any_dim() {
    Dim d;
    d.w = vp_u32("w"); d.h = vp_u32("h"); d.r = vp_real("r");
    vp_assume(d.w > 0 && d.h > 0);
    vp_assume(d.r > 0);
    return d;
}

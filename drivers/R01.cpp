//@src src/ReedsShepp/CurveGenerator.cpp src/ReedsShepp/Curve.cpp src/ReedsShepp/CircleSegment.cpp src/ReedsShepp/LineSegment.cpp src/ReedsShepp/CurveSegment.cpp src/ReedsShepp/GeometryHelper.cpp src/common/Point2d.cpp src/common/Pose2d.cpp
// Parsing of curve descriptions.
#include "vp.h"
#include "text.h"
#include <cslibs_path_planning/ReedsShepp/CurveGenerator.h>
using namespace lib_path;
static void parse(int n, const char* prefix) {
    text_is_modelled();
    vp_bounds(1);
    vp_unroll(20, 100000);
    char text[8];
    int k = 0;
    for (; prefix[k]; ++k) text[k] = prefix[k];
    for (; k < n; ++k) text[k] = (char)vp_u8("char");
    vp_text = text;
    vp_text_n = n;
    // what the text means
    bool ok = true, nested = false, circle = false;
    for (int i = 0; i < n && ok; ++i) {
        char c = text[i];
        if (nested) {
            if (c == ')') nested = false;
            else if (c == 'b') ok = circle;
            else if (c != 'p') ok = false;
        } else {
            if (c == '(') nested = true;
            else if (c == 'S') circle = false;
            else if (c == 'R') circle = true;
            else if (c == 'L') circle = true;
            else if (c != '|') ok = false;
        }
    }
    if (nested) ok = false;
    CurveGenerator g;
    alignas(8) char out[512];
    bool r = g.parse(*(std::string*)out, *(std::ostream*)(out + 256));
    if (ok) {
        vp_reach("correct");
        vp_assert(r, "a correct text is accepted");
    } else {
        vp_reach("wrong");
        vp_assert(!r, "a text with an error is rejected");
    }
}
// any three characters; any three after one or two given ones
VP_DRIVER drv_parse1() { parse(1, ""); }
VP_DRIVER drv_parse2() { parse(2, ""); }
VP_DRIVER drv_parse3() { parse(3, ""); }
VP_DRIVER drv_parse3s() { parse(4, "S"); }
VP_DRIVER drv_parse3r() { parse(4, "R"); }
VP_DRIVER drv_parse3n() { parse(4, "("); }
VP_DRIVER drv_parse3d() { parse(4, "|"); }
VP_DRIVER drv_parse3sn() { parse(5, "S("); }
VP_DRIVER drv_parse3rn() { parse(5, "L("); }
VP_DRIVER drv_parse3b() { parse(6, "L(b"); }
VP_DRIVER drv_parse3c() { parse(7, "L(b)"); }
VP_DRIVER drv_parse3e() { parse(6, "LSR"); }
VP_DRIVER drv_after_ls() { parse(5, "LS("); }
VP_DRIVER drv_after_sl() { parse(5, "SL("); }
VP_DRIVER drv_after_ss() { parse(5, "SS("); }
VP_DRIVER drv_after_bn() { parse(5, "L|("); }
VP_DRIVER drv_after_pp() { parse(7, "L(p)("); }
VP_DRIVER drv_after_bs() { parse(8, "L(b)S("); }
VP_DRIVER drv_after_lsl() { parse(6, "LSL("); }
VP_DRIVER drv_after_pb() { parse(6, "R(pb"); }
// thorough
VP_DRIVER drvt_parse4() { parse(4, ""); }

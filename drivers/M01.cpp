//@src src/common/GridMap2d.cpp src/common/SimpleGridMap2d.cpp src/common/RotatedGridMap2d.cpp src/common/Point2d.cpp src/common/Pose2d.cpp
// Cell classification of a stored map and cell storage.
#include "map_common.h"

template <class M> static void classify(M& m, const Dim& d) {
    int lo = vp_u8("lower"), hi = vp_u8("upper");
    vp_assume(lo < hi);
    m.setLowerThreshold(lo);
    m.setUpperThreshold(hi);
    int ni = vp_int("noinfo");
    m.setNoInformationValue(ni);
    unsigned x = vp_u32("x"), y = vp_u32("y");
    vp_assume(x < d.w && y < d.h);
    vp_bounds(1);
    GridMap2d& g = m;
    g.setValue(x, y, vp_u8("value"));
    int v = g.getValue(x, y);
    bool f = g.isFree(x, y), o = g.isOccupied(x, y), n = g.isNoInformation(x, y);
    double th = vp_real("theta");
    vp_reach("classified");
    bool special = ni != -1 && v == ni;
    vp_assert(n == (special || (v > lo && v < hi)), "a cell is unknown exactly if it holds the no-information value or lies between the thresholds");
    vp_assert(f == (!special && v <= lo), "a cell is free exactly if its value is at most the lower threshold");
    vp_assert(o == (!special && v >= hi), "a cell is occupied exactly if its value is at least the upper threshold");
    vp_assert(g.isFree(x, y, th) == f, "orientation does not change the free verdict of a plain map");
    vp_assert(g.isOccupied(x, y, th) == o, "orientation does not change the occupied verdict of a plain map");
    vp_assert(g.isNoInformation(x, y, th) == n, "orientation does not change the unknown verdict of a plain map");
    // the classification is a partition
    vp_assert((f ? 1 : 0) + (o ? 1 : 0) + (n ? 1 : 0) == 1, "exactly one of free, occupied, unknown");
}

VP_DRIVER drv_simple() {
    Dim d = any_dim();
    SimpleGridMap2d m(d.w, d.h, d.r);
    classify(m, d);
}
VP_DRIVER drv_rotated() {
    Dim d = any_dim();
    RotatedGridMap2d m(d.w, d.h, vp_real("yaw"), d.r);
    classify(m, d);
}
// the documented defaults, and the point/orientation overloads agree with the cell overloads
VP_DRIVER drv_defaults() {
    Dim d = any_dim();
    SimpleGridMap2d m(d.w, d.h, d.r);
    unsigned x = vp_u32("x"), y = vp_u32("y");
    vp_assume(x < d.w && y < d.h);
    vp_bounds(1);
    int v = vp_u8("v");
    m.setValue(x, y, v);
    vp_reach("defaults");
    vp_assert(m.isFree(x, y) == (v <= 50), "default lower threshold is 50");
    vp_assert(m.isOccupied(x, y) == (v >= 200), "default upper threshold is 200");
}

// storage: a cell keeps the value written last and no other cell changes
template <class M> static void storage(M& m, unsigned w, unsigned h) {
    unsigned x = vp_u32("x"), y = vp_u32("y"), x2 = vp_u32("x2"), y2 = vp_u32("y2");
    vp_assume(x < w && y < h);
    vp_assume(x2 < w && y2 < h);
    vp_assume(x != x2 || y != y2);
    vp_bounds(1);
    m.setValue(x2, y2, vp_u8("other"));
    int old = m.getValue(x2, y2);
    int v = vp_u8("v");
    m.setValue(x, y, v);
    int now = m.getValue(x, y);
    int now2 = m.getValue(x2, y2);
    vp_reach("stored");
    vp_assert(now == v, "a cell returns the value written to it");
    vp_assert(now2 == old, "writing one cell changes no other cell");
}
VP_DRIVER drv_storage() {
    Dim d = any_dim();
    SimpleGridMap2d m(d.w, d.h, d.r);
    storage(m, d.w, d.h);
}
VP_DRIVER drv_set_data() {
    Dim d = any_dim();
    SimpleGridMap2d m(d.w, d.h, d.r);
    unsigned w = vp_u32("w2"), h = vp_u32("h2");
    vp_assume(w > 0 && h > 0);
    std::vector<uint8_t> data;
    unsigned n = vp_u32("n");
    vp_assume(n >= w * h);
    data.resize(n);
    vp_havoc(&data[0], n);
    m.set(data, w, h);
    vp_assert(m.getWidth() == w, "width after set");
    vp_assert(m.getHeight() == h, "height after set");
    unsigned x = vp_u32("x"), y = vp_u32("y");
    vp_assume(x < w && y < h);
    vp_bounds(1);
    vp_reach("set");
    vp_assert(m.getValue(x, y) == data[y * w + x], "cell (x,y) is element y*width+x of the data");
    storage(m, w, h);
}
VP_DRIVER drv_set_data_rotated() {
    Dim d = any_dim();
    RotatedGridMap2d m(d.w, d.h, vp_real("yaw"), d.r);
    unsigned w = vp_u32("w2"), h = vp_u32("h2");
    vp_assume(w > 0 && h > 0);
    std::vector<uint8_t> data;
    unsigned n = vp_u32("n");
    vp_assume(n >= w * h);
    data.resize(n);
    vp_havoc(&data[0], n);
    double yaw = vp_real("yaw2");
    m.set(data, w, h, yaw);
    vp_assert(m.getWidth() == w && m.getHeight() == h, "size after set");
    vp_assert(m.getRotation() == yaw, "rotation after set");
    unsigned x = vp_u32("x"), y = vp_u32("y");
    vp_assume(x < w && y < h);
    vp_bounds(1);
    vp_reach("set");
    vp_assert(m.getValue(x, y) == data[y * w + x], "cell (x,y) is element y*width+x of the data");
    storage(m, w, h);
}
VP_DRIVER drv_fill() {
    Dim d = any_dim();
    SimpleGridMap2d m(d.w, d.h, d.r);
    int v = vp_u8("v");
    unsigned x = vp_u32("x"), y = vp_u32("y");
    vp_assume(x < d.w && y < d.h);
    vp_bounds(1);
    m.set((uint8_t)v);
    vp_reach("filled");
}

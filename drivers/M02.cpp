//@src src/common/GridMap2d.cpp src/common/Point2d.cpp src/common/Pose2d.cpp
// Area operations of the map interface, for an arbitrary map and an arbitrary area.
#include "vp.h"
#include <cslibs_path_planning/common/GridMap2d.h>
using namespace lib_path;

extern "C" {
bool vp_pure_inmap(int, int);
bool vp_pure_free(int, int);
bool vp_pure_occ(int, int);
bool vp_pure_unknown(int, int);
int vp_pure_value(int, int);
int vp_pure_areavalue(int, int);
bool vp_any_more();
int vp_any_cell();
}

// what the walk over the area has seen
struct Walk {
    bool begun, cur, done;      // begin() called, a cell is selected, the area is exhausted
    int x, y;                   // selected cell
    bool wrote;                 // the selected cell has been written
    bool reads;                 // its value was handed to the area
    bool in;                    // it lies in the map
    bool odd;                   // a cell that decides the verdict was selected
} W;
static int want;        // value expected by setValue (-1: the area's own value)
static int mode;        // 1 write, 2 read, 3 free, 4 unknown, 5 occupied

static void judge() {
    if (!W.cur) return;
    if (mode == 1) vp_assert(!W.in || W.wrote, "every cell of the area that lies in the map is written");
    if (mode == 2) vp_assert(!W.in || W.reads, "every cell of the area that lies in the map is read");
}
static void select() {
    W.cur = true; W.wrote = false; W.reads = false; W.in = false;
    W.x = vp_any_cell(); W.y = vp_any_cell();
    if (vp_pure_inmap(W.x, W.y)) {
        W.in = true;
        if (mode == 3 && !vp_pure_free(W.x, W.y)) W.odd = true;
        if (mode == 4 && !vp_pure_unknown(W.x, W.y)) W.odd = true;
        if (mode == 5 && vp_pure_occ(W.x, W.y)) W.odd = true;
    }
}
struct Area : MapArea2d {
    void begin() { W.begun = true; W.cur = false; W.done = false; }
    bool next() {
        vp_assert(W.begun, "an area is rewound before it is walked");
        judge();
        if (W.done || !vp_any_more()) { W.done = true; W.cur = false; return false; }
        select();
        return true;
    }
    void getCell(int& x, int& y) const { vp_assert(W.cur, "a cell is asked for only while one is selected"); x = W.x; y = W.y; }
    uint8_t getValue() const { vp_assert(W.cur, "an area value is asked for only while a cell is selected"); return vp_pure_areavalue(W.x, W.y); }
    void setValue(const uint8_t v) {
        vp_assert(W.cur, "an area value is stored only while a cell is selected");
        vp_assert(mode == 2, "only reading an area stores values in it");
        vp_assert(vp_pure_inmap(W.x, W.y), "only cells in the map are read");
        vp_assert(v == (uint8_t)vp_pure_value(W.x, W.y), "the area receives the value of its current cell");
        W.reads = true;
    }
};
struct Map : GridMap2d {
    void at(unsigned x, unsigned y) const {
        vp_assert(W.cur && x == (unsigned)W.x && y == (unsigned)W.y, "only the selected cell of the area is touched");
        vp_assert(vp_pure_inmap(W.x, W.y), "a cell outside the map is never touched");
    }
    uint8_t getValue(const unsigned int x, const unsigned int y) const { at(x, y); return vp_pure_value(W.x, W.y); }
    void setValue(const unsigned int x, const unsigned int y, const uint8_t value) {
        at(x, y);
        vp_assert(mode == 1, "only writing an area changes the map");
        vp_assert(value == (want < 0 ? (uint8_t)vp_pure_areavalue(W.x, W.y) : (uint8_t)want), "the cell gets the requested value");
        W.wrote = true;
    }
    unsigned int getWidth() const { return vp_u32("w"); }
    unsigned int getHeight() const { return vp_u32("h"); }
    double getResolution() const { return vp_real("r"); }
    Point2d getOrigin() const { return Point2d(0, 0); }
    void setOrigin(const Point2d&) { vp_fail("an area operation moved the map"); }
    bool isFree(const unsigned int x, const unsigned int y) const { at(x, y); return vp_pure_free(W.x, W.y); }
    bool isOccupied(const unsigned int x, const unsigned int y) const { at(x, y); return vp_pure_occ(W.x, W.y); }
    bool isNoInformation(const unsigned int x, const unsigned int y) const { at(x, y); return vp_pure_unknown(W.x, W.y); }
    bool point2cell(const double, const double, unsigned int& x, unsigned int& y) const { x = vp_u32("x"); y = vp_u32("y"); return vp_bool("in"); }
    void cell2point(const unsigned int, const unsigned int, double& px, double& py) const { px = vp_real("px"); py = vp_real("py"); }
    bool isInMap(const int x, const int y) const { return vp_pure_inmap(x, y); }
    bool isInMap(const double, const double) const { return vp_bool("in"); }
};
static void reset(int m) {
    W.begun = W.cur = W.done = W.wrote = W.reads = W.in = W.odd = false;
    W.x = W.y = 0;
    want = -1;
    mode = m;
}
VP_DRIVER drv_set_value() {
    reset(1);
    want = vp_u8("v");
    Map m; Area a;
    GridMap2d& g = m;
    g.setAreaValue(a, (uint8_t)want);
    vp_reach("done");
    vp_assert(W.done, "the whole area is walked");
}
VP_DRIVER drv_set_own() {
    reset(1);
    Map m; Area a;
    GridMap2d& g = m;
    g.setAreaValue(a);
    vp_reach("done");
    vp_assert(W.done, "the whole area is walked");
}
VP_DRIVER drv_get() {
    reset(2);
    Map m; Area a;
    GridMap2d& g = m;
    g.getAreaValues(a);
    vp_reach("done");
    vp_assert(W.done, "the whole area is walked");
}
VP_DRIVER drv_free() {
    reset(3);
    Map m; Area a;
    GridMap2d& g = m;
    bool r = g.isAreaFree(a);
    bool done = W.done;
    vp_reach("done");
    if (r) vp_assert(done && !W.odd, "an area is called free only if each of its cells in the map is free");
    else vp_assert(W.odd, "an area is called not free only if one of its cells in the map is not free");
}
VP_DRIVER drv_unknown() {
    reset(4);
    Map m; Area a;
    GridMap2d& g = m;
    bool r = g.isAreaNoInformation(a);
    bool done = W.done;
    vp_reach("done");
    if (r) vp_assert(done && !W.odd, "an area is called unknown only if each of its cells in the map is unknown");
    else vp_assert(W.odd, "an area is called known only if one of its cells in the map is known");
}
VP_DRIVER drv_occ() {
    reset(5);
    Map m; Area a;
    GridMap2d& g = m;
    bool r = g.isAreaOccupied(a);
    bool done = W.done;
    vp_reach("done");
    if (r) vp_assert(W.odd, "an area is called occupied only if one of its cells in the map is occupied");
    else vp_assert(done && !W.odd, "an area is called not occupied only if none of its cells in the map is occupied");
}

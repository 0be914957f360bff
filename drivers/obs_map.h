// A map with arbitrary (but repeatable) answers that may not be changed.
#pragma once
#include "vp.h"
#include <cslibs_path_planning/common/GridMap2d.h>
extern "C" {
bool vp_pure_in(int, int);
bool vp_pure_free(int, int);
bool vp_pure_occupied(int, int);
bool vp_pure_unknown(int, int);
bool vp_pure_inside(double, double);
unsigned vp_pure_u_cx(double, double);
unsigned vp_pure_u_cy(double, double);
}
struct ObsMap : lib_path::GridMap2d {
    double res, ox, oy;
    unsigned w, h;
    ObsMap() {
        res = vp_real("res"); ox = vp_real("ox"); oy = vp_real("oy");
        w = vp_u32("w"); h = vp_u32("h");
        vp_assume(res > 0 && w > 0 && h > 0);
    }
    uint8_t getValue(const unsigned int, const unsigned int) const { return vp_u8("v"); }
    void setValue(const unsigned int, const unsigned int, const uint8_t) { vp_fail("a cell of the map was changed"); }
    unsigned int getWidth() const { return w; }
    unsigned int getHeight() const { return h; }
    double getResolution() const { return res; }
    lib_path::Point2d getOrigin() const { return lib_path::Point2d(ox, oy); }
    void setOrigin(const lib_path::Point2d&) { vp_fail("the map was moved"); }
    bool isFree(const unsigned int x, const unsigned int y) const { return vp_pure_free(x, y); }
    bool isOccupied(const unsigned int x, const unsigned int y) const { return vp_pure_occupied(x, y); }
    bool isNoInformation(const unsigned int x, const unsigned int y) const { return vp_pure_unknown(x, y); }
    bool point2cell(const double px, const double py, unsigned int& x, unsigned int& y) const {
        x = vp_pure_u_cx(px, py);
        y = vp_pure_u_cy(px, py);
        return vp_pure_inside(px, py);
    }
    void cell2point(const unsigned int x, const unsigned int y, double& px, double& py) const { px = ox + (x + .5) * res; py = oy + (y + .5) * res; }
    bool isInMap(const int x, const int y) const { return vp_pure_in(x, y); }
    bool isInMap(const double x, const double y) const { return vp_pure_inside(x, y); }
};

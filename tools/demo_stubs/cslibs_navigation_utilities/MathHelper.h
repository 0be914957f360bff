// Runnable stand-in for the external package cslibs_navigation_utilities (demonstrations only).
#pragma once
#include <Eigen/Core>
#include <cmath>
#include <string>
#include <vector>
#include <utility>
#include <algorithm>
#include <iostream>
namespace MathHelper {
inline double AngleClamp(double a) { return a - 2 * M_PI * std::floor((a + M_PI) / (2 * M_PI)); }
inline double AngleDelta(double a, double b) { return AngleClamp(b - a); }
inline double Angle(const Eigen::Vector2d& v) { return std::atan2(v.y(), v.x()); }
}
typedef std::pair<double, double> point2D;
inline bool segmentIntersection(const point2D& a, const point2D& b, const point2D& c, const point2D& d, point2D& pt, double& s, double& t, double tol) {
    double rx = b.first - a.first, ry = b.second - a.second, qx = d.first - c.first, qy = d.second - c.second;
    double det = rx * qy - ry * qx;
    if (std::fabs(det) < 1e-12) return false;
    s = ((c.first - a.first) * qy - (c.second - a.second) * qx) / det;
    t = ((c.first - a.first) * ry - (c.second - a.second) * rx) / det;
    pt = point2D(a.first + s * rx, a.second + s * ry);
    return s >= -tol && s <= 1 + tol && t >= -tol && t <= 1 + tol;
}

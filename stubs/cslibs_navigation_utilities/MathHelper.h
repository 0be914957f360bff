// Interface stand-in for the external package cslibs_navigation_utilities.
// Only declarations: the analyser gives them their documented meaning (DESIGN.md).
#pragma once
#include <Eigen/Core>
#include <cmath>
#include <string>
#include <vector>
#include <utility>
#include <algorithm>
#include <iostream>
extern "C" double vp_angle_clamp(double a);   // a - 2*pi*k, in [-pi, pi)
namespace MathHelper {
inline double AngleClamp(double a) { return vp_angle_clamp(a); }
inline double AngleDelta(double a, double b) { return vp_angle_clamp(b - a); }
inline double Angle(const Eigen::Vector2d& v) { return std::atan2(v.y(), v.x()); }
}
typedef std::pair<double, double> point2D;
bool segmentIntersection(const point2D& p1, const point2D& p2, const point2D& p3, const point2D& p4,
                         point2D& pt, double& s, double& t, double tol);

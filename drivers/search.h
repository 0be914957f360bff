// A generic search over stand-ins: nodes, map, open list and neighbourhood are the driver's, the
// search itself is the repository's.
#pragma once
#include "vp.h"
#include <cmath>
#include <set>
#include <queue>
#include <cslibs_path_planning/common/Pose2d.h>
#include <cslibs_path_planning/generic/Common.hpp>
#include <cslibs_path_planning/generic/Heuristics.hpp>
#include <cslibs_path_planning/generic/SearchAlgorithm.hpp>
using namespace lib_path;
struct SMap {
    double res;
    double getResolution() const { return res; }
    double getRotation() const { return 0; }
};
template <class N> struct Open {
    void add(N* n);
    bool empty();
    void remove(N* n);
    void clear();
    N* next();
    std::size_t size() const;
};
template <class N> struct Man {
    typedef SMap MapT;
    template <class P> struct NodeHolder { typedef P NodeType; };
    const SMap* m;
    void setMap(const SMap* x) { m = x; }
    const SMap* getMap() const { return m; }
    double getResolution() const { return m->getResolution(); }
    double getValue(double, double) const;
    bool isOccupied(const N* n) const;
    template <class R> N* lookup(const R& r) const { return find(r.x, r.y); }
    N* find(double x, double y) const;
    // the rest of a map manager's interface
    bool isFree(const N* n) const { return !isOccupied(n) && vp_bool("free"); }
    bool isOccupied(double x, double y, double) const { return isOccupied(find(x, y)); }
    bool isFree(double x, double y, double) const { return isFree(find(x, y)); }
    N* lookup(double x, double y) const { return find(x, y); }
    N* lookup(double x, double y, double) const { return find(x, y); }
    bool contains(double x, double y) const { try { find(x, y); return true; } catch (OutsideMapException&) { return false; } }
};
template <class N> struct Hooks;
template <bool R> struct Nei : NeighborhoodBase {
    static constexpr bool reversed = R;
    template <class P> struct NodeHolder { typedef P NodeType; };
    template <class N> static bool isGoal(const N* g, const N* n) { return Hooks<N>::is_goal(g, n); }
    template <class T, class M, class N> static void iterateFreeNeighbors(T& algo, M&, N* n) { Hooks<N>::neighbours(algo, n); }
};
template <bool R, int P = 0, class E = NoExpansion> using SearchOf = GenericSearchAlgorithm<GenericParameter<Pose2d, HeuristicL2, SMap, Nei<R>, E, Open, Man, P> >;
typedef SearchOf<false>::NodeT N;
static N* const nonode = 0;

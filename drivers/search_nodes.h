// Nodes of a generic search.
#pragma once
#include "vp.h"
#include <cmath>
#include <set>
#include <queue>
#include <cslibs_path_planning/common/Pose2d.h>
#include <cslibs_path_planning/generic/Common.hpp>
#include <cslibs_path_planning/generic/Heuristics.hpp>
using namespace lib_path;
typedef HeuristicL2::NodeHolder<Pose2d>::NodeType N;

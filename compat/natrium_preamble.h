// First include of every chunk of the natrium library. The project compiles
// the library as a single unit (CMake_UnityBuild.txt), where some files use
// headers that only an earlier file includes; in a chunk these come from here.
#pragma once
#if __has_include("natrium/utilities/BasicNames.h")
#include "natrium/utilities/BasicNames.h"
#endif
#if __has_include("natrium/utilities/Logging.h")
#include "natrium/utilities/Logging.h"
#endif
#if __has_include("natrium/advection/SemiLagrangian.h")
#include "natrium/advection/SemiLagrangian.h"
#endif
#if __has_include("natrium/boundaries/BoundaryTools.h")
#include "natrium/boundaries/BoundaryTools.h"
#endif
#if __has_include("natrium/problemdescription/ProblemDescription.h")
#include "natrium/problemdescription/ProblemDescription.h"
#endif
#if __has_include("natrium/collision/CollisionModel.h")
#include "natrium/collision/CollisionModel.h"
#endif
#if __has_include("natrium/collision/ExternalForceFunctions.h")
#include "natrium/collision/ExternalForceFunctions.h"
#endif
#if __has_include("natrium/collision/BGKPseudopotential.h")
#include "natrium/collision/BGKPseudopotential.h"
#endif
#if __has_include("natrium/collision_advanced/AuxiliaryCollisionFunctions.h")
#include "natrium/collision_advanced/AuxiliaryCollisionFunctions.h"
#endif
#if __has_include("natrium/solver/CFDSolver.h")
#include "natrium/solver/CFDSolver.h"
#endif
#if __has_include("natrium/solver/CompressibleCFDSolver.h")
#include "natrium/solver/CompressibleCFDSolver.h"
#endif
#if __has_include("natrium/dataprocessors/GlobalTurbulenceStats.h")
#include "natrium/dataprocessors/GlobalTurbulenceStats.h"
#endif
#if __has_include("natrium/utilities/CFDSolverUtilities.h")
#include "natrium/utilities/CFDSolverUtilities.h"
#endif
#if __has_include("natrium/stencils/D2Q19H.h")
#include "natrium/stencils/D2Q19H.h"
#endif
#if __has_include("natrium/stencils/D2Q19V.h")
#include "natrium/stencils/D2Q19V.h"
#endif
#if __has_include("natrium/stencils/D2Q25H.h")
#include "natrium/stencils/D2Q25H.h"
#endif
#if __has_include("natrium/stencils/D2Q777.h")
#include "natrium/stencils/D2Q777.h"
#endif
#if __has_include("natrium/stencils/D2Q9.h")
#include "natrium/stencils/D2Q9.h"
#endif
#if __has_include("natrium/stencils/D3Q13.h")
#include "natrium/stencils/D3Q13.h"
#endif
#if __has_include("natrium/stencils/D3Q15.h")
#include "natrium/stencils/D3Q15.h"
#endif
#if __has_include("natrium/stencils/D3Q19.h")
#include "natrium/stencils/D3Q19.h"
#endif
#if __has_include("natrium/stencils/D3Q21.h")
#include "natrium/stencils/D3Q21.h"
#endif
#if __has_include("natrium/stencils/D3Q27.h")
#include "natrium/stencils/D3Q27.h"
#endif
#if __has_include("natrium/stencils/D3Q45.h")
#include "natrium/stencils/D3Q45.h"
#endif
#if __has_include("natrium/stencils/D3Q77.h")
#include "natrium/stencils/D3Q77.h"
#endif
#if __has_include("natrium/stencils/D3V27.h")
#include "natrium/stencils/D3V27.h"
#endif
#if __has_include("natrium/dataprocessors/PseudoEntropicStabilizer.h")
#include "natrium/dataprocessors/PseudoEntropicStabilizer.h"
#endif

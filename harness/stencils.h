// all discrete velocity sets the solver offers
#pragma once
#include "natrium/stencils/D2Q9.h"
#include "natrium/stencils/D2Q19H.h"
#include "natrium/stencils/D2Q19V.h"
#include "natrium/stencils/D2Q25H.h"
#include "natrium/stencils/D2Q777.h"
#include "natrium/stencils/D3Q13.h"
#include "natrium/stencils/D3Q15.h"
#include "natrium/stencils/D3Q19.h"
#include "natrium/stencils/D3Q21.h"
#include "natrium/stencils/D3Q27.h"
#include "natrium/stencils/D3Q45.h"
#include "natrium/stencils/D3Q77.h"
#include "natrium/stencils/D3V27.h"
#include "natrium/stencils/RD3Q27.h"
#include "vh.h"

struct StencilInfo {
	natrium::StencilType type;
	const char* name;
	size_t d, q;
	// highest order of the Gaussian velocity moments the set has to reproduce
	int order;
	boost::shared_ptr<natrium::Stencil> (*make)(double);
};
template<class S> boost::shared_ptr<natrium::Stencil> make_st(double s) { return boost::make_shared<S>(s); }

inline const std::vector<StencilInfo>& all_stencils() {
	using namespace natrium;
	static const std::vector<StencilInfo> v = {
		{ Stencil_D2Q9, "D2Q9", 2, 9, 5, make_st<D2Q9> },
		{ Stencil_D2Q19H, "D2Q19H", 2, 19, 9, make_st<D2Q19H> },
		{ Stencil_D2Q19V, "D2Q19V", 2, 19, 9, make_st<D2Q19V> },
		{ Stencil_D2Q25H, "D2Q25H", 2, 25, 9, make_st<D2Q25H> },
		{ Stencil_D2Q777, "D2Q777", 2, 777, 5, make_st<D2Q777> },
		{ Stencil_D3Q13, "D3Q13", 3, 13, 5, make_st<D3Q13> },
		{ Stencil_D3Q15, "D3Q15", 3, 15, 5, make_st<D3Q15> },
		{ Stencil_D3Q19, "D3Q19", 3, 19, 5, make_st<D3Q19> },
		{ Stencil_D3Q21, "D3Q21", 3, 21, 5, make_st<D3Q21> },
		{ Stencil_D3Q27, "D3Q27", 3, 27, 5, make_st<D3Q27> },
		{ Stencil_D3Q45, "D3Q45", 3, 45, 9, make_st<D3Q45> },
		{ Stencil_D3Q77, "D3Q77", 3, 77, 9, make_st<D3Q77> },
		{ Stencil_D3V27, "D3V27", 3, 27, 7, make_st<D3V27> },
		{ Stencil_RD3Q27, "RD3Q27", 3, 27, 5, make_st<RD3Q27> },
	};
	return v;
}

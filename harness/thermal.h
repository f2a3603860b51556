// Random simulations with internal energy (CompressibleCFDSolver)
#pragma once
#include "run.h"
#include "natrium/solver/CompressibleCFDSolver.h"

namespace sim {
using vh::rng;
using vh::fmt;
inline const std::vector<Model>& thermal_models() {
	static const std::vector<Model> v = {
		{ 2, Stencil_D2Q25H, BGK_STANDARD, QUARTIC_EQUILIBRIUM, "D2Q25H" },
		{ 2, Stencil_D2Q19H, BGK_STANDARD, QUARTIC_EQUILIBRIUM, "D2Q19H" },
		{ 2, Stencil_D2Q19V, BGK_STANDARD, QUARTIC_EQUILIBRIUM, "D2Q19V" },
		{ 3, Stencil_D3Q45, BGK_STANDARD, QUARTIC_EQUILIBRIUM, "D3Q45" },
	};
	return v;
}
// the additional parameters of a simulation with energy
struct Gas {
	double gamma = 1.4, prandtl = 1;
	bool pr = false, suth = false;
	double cv() const { return 1 / (gamma - 1); }
	std::string str() const { return fmt(" | gamma %.4g%s%s", gamma, pr ? fmt(" Pr %.3g", prandtl).c_str() : "", suth ? " temperature law" : ""); }
	void apply(SolverConfiguration& c) const {
		c.setHeatCapacityRatioGamma(gamma);
		if (pr) c.setPrandtlNumber(prandtl);
		if (suth) c.setSutherlandLaw();
	}
	static Gas random(bool with_suth) {
		Gas g;
		g.gamma = rng().pick(std::vector<double>{ 1.4, 5. / 3, rng().uni(1.1, 1.66) });
		g.pr = rng().flip();
		if (g.pr) g.prandtl = rng().uni(0.6, 1.5);
		g.suth = with_suth && rng().flip(0.3);
		return g;
	}
};
template<size_t dim> Run<dim> random_thermal(size_t max_dofs) {
	Run<dim> R;
	auto& r = rng();
	for (;;) {
		R = Run<dim>::random(max_dofs * 9 / (dim == 2 ? 25 : 45), false, false);
		if (R.adv == SEMI_LAGRANGIAN || R.order <= 4) break;
	}
	do R.model = r.pick(thermal_models()); while (R.model.dim != dim);
	R.cfl = R.adv == SEDG ? r.uni(0.05, 0.3) : r.uni(0.05, 2.5);
	R.tau = r.uni(0.6, 1.5);
	R.finish();
	R.random_fields();
	return R;
}
// temperature field of a run: a wave on a level
struct Heat { double T0 = 1, amp = 0; };
template<size_t dim> double temperature(const Run<dim>& R, const Heat& H, const dealii::Point<dim>& x) {
	if (R.uniform || R.modes.empty()) return H.T0;
	return H.T0 * (1 + H.amp * R.wave(R.modes[0], R.spec.unshear(x)));
}
template<size_t dim> boost::shared_ptr<box::Problem<dim> > thermal_problem(const Run<dim>& R, const Heat& H, bool refined) {
	auto p = R.problem(refined);
	Run<dim> self = R;
	Heat h = H;
	p->setInitialT(boost::make_shared<box::Fn<dim> >(1, [self, h](const dealii::Point<dim>& x, unsigned, double) { return temperature<dim>(self, h, x); }));
	return p;
}
inline Heat random_heat() {
	Heat H;
	H.T0 = rng().flip(0.3) ? 1 : rng().uni(0.85, 1.15);
	H.amp = rng().uni(-0.05, 0.05);
	return H;
}
} // namespace sim

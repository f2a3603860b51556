// Random complete simulations: configuration, problem, initial fields; a probe that records every step.
#pragma once
#include "modal.h"
#include "natrium/collision/CollisionModel.h"
#include "box.h"
#include "lattice.h"
#include "stencils.h"
#include "natrium/solver/CFDSolver.h"
#include "natrium/solver/SolverConfiguration.h"
#include "natrium/dataprocessors/DataProcessor.h"
#include "natrium/problemdescription/ConstantExternalForce.h"
#include "natrium/boundaries/SLFirstOrderBounceBack.h"
#include "natrium/boundaries/SLEquilibriumBoundary.h"
#include "natrium/boundaries/DoNothingBoundary.h"
#include <sys/stat.h>
#include <dirent.h>
#include <fstream>

namespace sim {
using namespace natrium;
using box::Spec;

struct Model {
	size_t dim;
	StencilType st;
	CollisionSchemeName coll;
	EquilibriumSchemeName eq;
	const char* name;
};
inline const std::vector<Model>& models() {
	static const std::vector<Model> v = {
		{ 2, Stencil_D2Q9, BGK_STANDARD, BGK_EQUILIBRIUM, "D2Q9-BGK" },
		{ 2, Stencil_D2Q9, BGK_STANDARD, QUARTIC_EQUILIBRIUM, "D2Q9-BGK4" },
		{ 2, Stencil_D2Q9, BGK_REGULARIZED, BGK_EQUILIBRIUM, "D2Q9-reg" },
		{ 2, Stencil_D2Q9, MRT_STANDARD, BGK_EQUILIBRIUM, "D2Q9-MRT" },
		{ 2, Stencil_D2Q25H, BGK_STANDARD, QUARTIC_EQUILIBRIUM, "D2Q25H-BGK4" },
		{ 2, Stencil_D2Q19H, BGK_STANDARD, QUARTIC_EQUILIBRIUM, "D2Q19H-BGK4" },
		{ 2, Stencil_D2Q19V, BGK_STANDARD, QUARTIC_EQUILIBRIUM, "D2Q19V-BGK4" },
		{ 3, Stencil_D3Q15, BGK_STANDARD, BGK_EQUILIBRIUM, "D3Q15-BGK" },
		{ 3, Stencil_D3Q19, BGK_STANDARD, BGK_EQUILIBRIUM, "D3Q19-BGK" },
		{ 3, Stencil_D3Q27, BGK_STANDARD, BGK_EQUILIBRIUM, "D3Q27-BGK" },
		{ 3, Stencil_D3Q19, BGK_REGULARIZED, BGK_EQUILIBRIUM, "D3Q19-reg" },
		{ 3, Stencil_D3V27, BGK_STANDARD, QUARTIC_EQUILIBRIUM, "D3V27-BGK4" },
	};
	return v;
}
inline const StencilInfo& info(StencilType t) {
	for (auto& i : all_stencils()) if (i.type == t) return i;
	throw std::runtime_error("stencil");
}

enum Walls { NONE_, STILL, MOVING, TIME_MOVING };

template<size_t dim>
struct Run {
	Spec<dim> spec;
	Model model;
	AdvectionSchemeName adv = SEMI_LAGRANGIAN;
	FluxTypeName flux = LAX_FRIEDRICHS;
	TimeIntegratorName integrator = RUNGE_KUTTA_5STAGE;
	DealIntegratorName deal = NONE;
	struct { bool on = false; double coarsen = 1, refine = 1, min_cfl = 0, max_cfl = 0, refine_tol = 0, coarsen_tol = 0; } emb;
	unsigned order = 2;
	double cfl = 0.4, scaling = 1, tau = 0.6;
	size_t N = 10;
	bool force = false;
	ForceType forcing = SHIFTING_VELOCITY;
	dealii::Tensor<1, dim> F;
	Walls walls = STILL;
	bool filter = false;
	Damping damp;             // of the filter
	size_t filter_interval = 1;
	RegularizationSchemeName reg = NO_REGULARIZATION;
	bool limiter = false;
	SupportPointsName points = GAUSS_LOBATTO_POINTS;
	InitializationSchemeName init = EQUILIBRIUM;
	// initial fields
	bool uniform = false;
	double rho0 = 1, mach = 0.08;
	struct Mode { std::array<double, dim> k; double phase; std::array<double, dim + 1> amp; };
	std::vector<Mode> modes;
	std::array<double, dim> u0;

	boost::shared_ptr<Stencil> st;   // own instance
	double dx = 0, dt = 0, nu = 0, cs = 0;

	std::string str() const {
		return vh::fmt("%s %s p%u cfl %.3g scaling %.3g tau %.4g N %zu force %d walls %d filter %d | ", model.name,
			adv == SEDG ? "SEDG" : "SL", order, cfl, scaling, tau, N, force ? int(forcing) : -1, int(walls), filter) + spec.str();
	}
	double rho(const dealii::Point<dim>& x) const {
		double r = rho0;
		if (uniform) return r;
		dealii::Point<dim> y = spec.unshear(x);
		for (auto& m : modes) r += rho0 * m.amp[dim] * wave(m, y);
		return r;
	}
	double vel(const dealii::Point<dim>& x, size_t c) const {
		double r = u0[c];
		if (uniform) return r;
		dealii::Point<dim> y = spec.unshear(x);
		for (auto& m : modes) r += m.amp[c] * wave(m, y);
		return r;
	}
	double wave(const Mode& m, const dealii::Point<dim>& y) const {
		double p = m.phase;
		for (size_t d = 0; d < dim; d++) p += m.k[d] * y[d] / spec.len[d];
		return std::cos(p);
	}
	// velocity of the wall at a point and time
	double wall(const dealii::Point<dim>& x, size_t c, double t) const {
		if (walls == STILL) return 0;
		double s = 0.05 * cs * (1 + 0.3 * c);
		double r = s * std::cos(1.3 * x[0] / spec.len[0] + 2.1 * x[dim - 1] / spec.len[dim - 1] + c);
		if (walls == TIME_MOVING) r *= std::cos(0.9 * t / dt + 0.3);
		return r;
	}
	boost::shared_ptr<box::Problem<dim> > problem(bool refined, int extra_refine = 0) const {
		return problem_of<box::Problem<dim> >(refined, extra_refine);
	}
	template<class P>
	boost::shared_ptr<P> problem_of(bool refined, int extra_refine = 0) const {
		Spec<dim> s = spec;
		s.refine += extra_refine;
		s.viscosity = nu;
		Run<dim> self = *this;
		auto wm = [self](size_t id) -> boost::shared_ptr<Boundary<dim> > {
			if (self.walls == STILL || self.walls == NONE_)
				return boost::make_shared<VelocityNeqBounceBack<dim> >(id, dealii::Tensor<1, dim>());
			auto fn = boost::make_shared<box::Fn<dim> >(dim, [self](const dealii::Point<dim>& x, unsigned c, double t) {
				return self.wall(x, c, t); });
			return boost::make_shared<VelocityNeqBounceBack<dim> >(id, fn);
		};
		auto p = boost::make_shared<P>(s, wm, refined);
		p->setInitialRho(boost::make_shared<box::Fn<dim> >(1, [self](const dealii::Point<dim>& x, unsigned, double) { return self.rho(x); }));
		p->setInitialU(boost::make_shared<box::Fn<dim> >(dim, [self](const dealii::Point<dim>& x, unsigned c, double) { return self.vel(x, c); }));
		p->uchar = mach * cs;
		if (force) p->setExternalForce(boost::make_shared<ConstantExternalForce<dim> >(F));
		return p;
	}
	// mesh width, time step, viscosity belonging to tau
	void finish() {
		st = info(model.st).make(scaling);
		cs = std::sqrt(st->getSpeedOfSoundSquare());
		auto p = problem(true);
		dx = 1e100;
		for (auto c = p->getMesh()->begin_active(); c != p->getMesh()->end(); ++c)
			if (c->is_locally_owned()) for (unsigned v = 0; v < dealii::GeometryInfo<dim>::vertices_per_cell; v++)
				for (unsigned w = 0; w < v; w++)
					dx = std::min(dx, c->vertex(v).distance(c->vertex(w)));
		if (vh::st().np > 1) dx = dealii::Utilities::MPI::min(dx, MPI_COMM_WORLD);
		// the speed the CFL number refers to (not the largest speed of every set, see the findings on C01)
		double cmax = scaling * std::sqrt(model.st == Stencil_D3Q15 ? 3.0 : 2.0);
		dt = cfl * dx / (cmax * order * order);
		nu = (tau - 0.5) * cs * cs * dt;
		if (model.coll == BGK_STEADY_STATE) nu = (tau - 0.5) * cs * cs * dt;
	}
	static Run random(size_t max_dofs, bool allow_walls = true, bool allow_force = true) {
		auto& r = vh::rng();
		Run R;
		for (;;) {
			R = Run();
			do R.model = r.pick(models()); while (R.model.dim != dim);
			R.adv = r.flip(0.5) ? SEDG : SEMI_LAGRANGIAN;
			R.order = 1 + r.below(dim == 2 ? 5 : 3);
			size_t q = info(R.model.st).q;
			size_t cells = std::max<size_t>(2, max_dofs / size_t(std::pow(R.order + 1, dim)) * 9 / q);
			R.spec = box::random_spec<dim>(!allow_walls || r.flip(0.5), true, cells);
			// flaws in meshes are the business of other checks; periodic directions need two cells
			bool ok = true;
			for (size_t d = 0; d < dim; d++) ok = ok && (!R.spec.periodic[d] || (R.spec.reps[d] << R.spec.refine) >= 2);
			if (R.adv == SEMI_LAGRANGIAN && dim == 3 && R.spec.wobble != 0) ok = false;
			if (ok) break;
		}
		box::turn_cells(R.spec);
		if (R.spec.turn && R.adv == SEDG) R.spec.turn = 1;
		R.cfl = R.adv == SEDG ? r.uni(0.05, 0.8) : (r.flip(0.3) ? r.uni(0.05, 1) : r.uni(0.5, 4.0));
		if (R.adv == SEDG && r.flip(0.3)) R.flux = CENTRAL;
		R.scaling = r.flip(0.3) ? 1.0 : r.logu(0.3, 100);
		R.tau = r.pick(std::vector<double>{ 0.51, 0.55, 0.7, 1.0, 1.5, r.uni(0.505, 3) });
		R.N = 2 + r.below(7);
		R.finish();
		bool walled = false;
		for (size_t d = 0; d < dim; d++) walled = walled || !R.spec.periodic[d];
		R.walls = !walled ? NONE_ : r.pick(std::vector<Walls>{ STILL, MOVING, MOVING, R.adv == SEDG ? MOVING : TIME_MOVING });
		if (allow_force && r.flip(0.3)) {
			R.force = true;
			for (size_t d = 0; d < dim; d++) R.F[d] = r.uni(-1, 1) * 0.01 * R.cs / R.dt;
			R.forcing = r.pick(std::vector<ForceType>{ SHIFTING_VELOCITY, EXACT_DIFFERENCE });
			if (R.model.coll != BGK_STANDARD) R.force = false;
		}
		R.points = r.pick(std::vector<SupportPointsName>{ GAUSS_LOBATTO_POINTS, GAUSS_LOBATTO_POINTS, EQUIDISTANT_POINTS });
		if (R.adv == SEDG) R.points = GAUSS_LOBATTO_POINTS;
		R.random_fields();
		return R;
	}
	void random_fields() {
		auto& r = vh::rng();
		rho0 = r.flip(0.5) ? 1.0 : r.uni(0.5, 2);
		for (auto& x : u0) x = r.uni(-1, 1) * mach * cs;
		modes.clear();
		for (int i = 0; i < 3; i++) {
			Mode m;
			for (size_t d = 0; d < dim; d++) m.k[d] = spec.periodic[d] ? 2 * M_PI * (double(r.below(5)) - 2) : r.uni(-5, 5);
			m.phase = r.uni(0, 6.28);
			for (size_t d = 0; d < dim; d++) m.amp[d] = r.uni(-1, 1) * 0.5 * mach * cs;
			m.amp[dim] = r.uni(-1, 1) * 0.05;
			modes.push_back(m);
		}
	}
	// dir empty: no output
	boost::shared_ptr<SolverConfiguration> config(const std::string& dir = "") const {
		auto c = boost::make_shared<SolverConfiguration>();
		if (dir.empty()) c->setSwitchOutputOff(true);
		else {
			c->setSwitchOutputOff(false);
			c->setOutputDirectory(dir);
		}
		c->setCommandLineVerbosity(0);
		c->setUserInteraction(false);
		c->setStencil(model.st);
		c->setStencilScaling(scaling);
		c->setCollisionScheme(model.coll);
		c->setEquilibriumScheme(model.eq);
		c->setAdvectionScheme(adv);
		c->setSedgFluxType(flux);
		c->setSedgOrderOfFiniteElement(order);
		c->setSupportPoints(points);
		c->setTimeIntegrator(integrator);
		if (integrator == OTHER) c->setDealIntegrator(deal);
		if (emb.on) c->setEmbeddedDealIntegratorParameters(emb.coarsen, emb.refine, emb.min_cfl, emb.max_cfl, emb.refine_tol, emb.coarsen_tol);
		c->setCFL(cfl);
		c->setNumberOfTimeSteps(N);
		c->setForcingScheme(force ? forcing : NO_FORCING);
		c->setInitializationScheme(init);
		c->setConvergenceThreshold(0);
		c->setOutputSolutionInterval(1000000000);
		c->setOutputCheckpointInterval(1000000000);
		c->setOutputTableInterval(1000000000);
		if (filter) {
			c->setFiltering(true);
			c->setFilteringScheme(damp.is_new ? NEW_FILTER : EXPONENTIAL_FILTER);
			c->setExponentialFilterAlpha(damp.alpha);
			c->setExponentialFilterS(damp.s);
			c->setExponentialFilterNc(damp.nc);
			c->setFilterDegreeByComponentSums(damp.by_sum);
			c->setFilterInterval(filter_interval);
		}
		c->setRegularizationScheme(reg);
		return c;
	}
};

inline double all_max(double x) {
	if (vh::st().np > 1) MPI_Allreduce(MPI_IN_PLACE, &x, 1, MPI_DOUBLE, MPI_MAX, MPI_COMM_WORLD);
	return x;
}
// everything of one moment of a simulation
template<size_t dim>
struct Snap {
	size_t it = 0;
	double t = 0, dt = 0;
	std::vector<std::vector<double> > f; // [direction][dof]
	std::vector<double> rho;
	std::vector<std::vector<double> > u;
	// the values of this process; the others are 0
	void take(const CFDSolver<dim>& s) {
		it = s.getIteration(); t = s.getTime(); dt = s.getTimeStepSize();
		size_t n = s.getNumberOfDoFs(), q = s.getStencil()->getQ();
		f.assign(q, std::vector<double>(n));
		rho.assign(n, 0); u.assign(dim, std::vector<double>(n));
		const dealii::IndexSet& own = s.getAdvectionOperator()->getLocallyOwnedDofs();
		for (size_t k = 0; k < n; k++) {
			if (!own.is_element(k)) continue;
			for (size_t i = 0; i < q; i++) f[i][k] = s.getF().at(i)(k);
			rho[k] = s.getDensity()(k);
			for (size_t j = 0; j < dim; j++) u[j][k] = s.getVelocity().at(j)(k);
		}
	}
	uint64_t hash() const {
		uint64_t h = 77;
		for (auto& v : f) for (double x : v) { uint64_t b; memcpy(&b, &x, 8); h = vh::mix(h ^ b); }
		return h;
	}
	double fmax() const {
		double m = 0;
		for (auto& v : f) for (double x : v) m = std::max(m, std::isfinite(x) ? std::fabs(x) : INFINITY);
		return all_max(m);
	}
};
inline double vdiff(const std::vector<double>& a, const std::vector<double>& b) {
	if (a.size() != b.size()) return INFINITY;
	double m = 0;
	for (size_t k = 0; k < a.size(); k++) {
		double d = std::fabs(a[k] - b[k]);
		if (!std::isfinite(d)) return INFINITY;
		m = std::max(m, d);
	}
	return m;
}
// largest difference of populations; infinity when shapes differ or a value is not finite
template<size_t dim> double fdiff(const Snap<dim>& a, const Snap<dim>& b) {
	double m = a.f.size() == b.f.size() ? 0 : INFINITY;
	for (size_t i = 0; i < a.f.size() && m < INFINITY; i++) m = std::max(m, vdiff(a.f[i], b.f[i]));
	return all_max(m);
}

struct Crash: public std::runtime_error { Crash() : std::runtime_error("planned crash") {} };

template<size_t dim>
class Probe: public DataProcessor<dim> {
public:
	std::function<void(CFDSolver<dim>&)> f;
	Probe(CFDSolver<dim>& s, std::function<void(CFDSolver<dim>&)> f) : DataProcessor<dim>(s), f(f) {}
	virtual void apply() { f(this->m_solver); }
};
template<size_t dim>
void probe(CFDSolver<dim>& s, std::function<void(CFDSolver<dim>&)> f) {
	s.appendDataProcessor(boost::make_shared<Probe<dim> >(s, f));
}

// run(); false when an unstable simulation was given up for its densities
template<class S> bool run_stable(S& s) {
	try { s.run(); return true; }
	catch (vh::Abort& e) {
		double lo = 1e300;
		for (size_t k = 0; k < s.getNumberOfDoFs(); k++) {
			double r = 0;
			for (size_t i = 0; i < s.getStencil()->getQ(); i++) r += s.getF().at(i)(k);
			if (!std::isfinite(r)) lo = -1e300;
			lo = std::min(lo, r);
		}
		if (lo >= 1e-10) throw;
		vh::metric("runs-given-up");
		return false;
	}
}

inline std::set<std::string> listing(const std::string& dir) {
	std::set<std::string> r;
	DIR* d = opendir(dir.c_str());
	if (!d) return r;
	while (dirent* e = readdir(d)) {
		std::string n = e->d_name;
		if (n != "." && n != "..") r.insert(n);
	}
	closedir(d);
	return r;
}
inline std::vector<std::vector<double> > table(const std::string& file) {
	std::ifstream in(file);
	std::vector<std::vector<double> > r;
	std::string l;
	while (std::getline(in, l)) {
		if (l.empty() || l[0] == '#') continue;
		std::vector<double> v;
		std::istringstream s(l);
		std::string w;
		while (s >> w) v.push_back(strtod(w.c_str(), 0));
		r.push_back(v);
	}
	return r;
}
inline std::string fresh_dir() {
	static int n = 0;
	std::string d = vh::st().scratch + vh::fmt("/out%d", n++);
	return d;
}
} // namespace sim

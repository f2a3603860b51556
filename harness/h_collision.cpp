// C02 C03 C04 C06: one collision step on arbitrary populations, judged against an independent oracle
#include "natrium/collision/CollisionModel.h"
#include "natrium/problemdescription/ProblemDescription.h"
#include "natrium/collision_advanced/CollisionSelection.h"
#include "natrium/benchmarks/PeriodicTestDomain2D.h"
#include "natrium/benchmarks/PeriodicTestDomain3D.h"
#include "natrium/collision/BGKStandard.h"
#include "natrium/collision/BGKStandardTransformed.h"
#include "natrium/collision/BGKSteadyState.h"
#include "natrium/collision/BGKRegularized.h"
#include "natrium/collision/BGKIncompressible.h"
#include "natrium/collision/MRTStandard.h"
#include "natrium/collision/MRTEntropic.h"
#include "natrium/collision/EntropicStabilized.h"
#include "natrium/collision/KBCStandard.h"
#include "natrium/collision/KBCCentral.h"
#include "stencils.h"
#include "lattice.h"
using namespace natrium;
using namespace vh;

template<size_t dim> struct Periodic;
template<> struct Periodic<2> { typedef PeriodicTestDomain2D type; };
template<> struct Periodic<3> { typedef PeriodicTestDomain3D type; };

struct Combo {
	size_t dim;
	StencilType st;
	CollisionSchemeName coll;
	EquilibriumSchemeName eq;
	MomentBasis basis;
	RelaxMode relax;
	const char* name;
};
static const std::vector<Combo>& combos() {
	static const std::vector<Combo> v = {
		{ 2, Stencil_D2Q9, BGK_STANDARD, BGK_EQUILIBRIUM, DELLAR_D2Q9, RELAX_FULL, "D2Q9-BGK" },
		{ 2, Stencil_D2Q9, BGK_STANDARD, QUARTIC_EQUILIBRIUM, DELLAR_D2Q9, RELAX_FULL, "D2Q9-BGK-quartic" },
		{ 2, Stencil_D2Q9, BGK_REGULARIZED, BGK_EQUILIBRIUM, DELLAR_D2Q9, RELAX_FULL, "D2Q9-regularized" },
		{ 2, Stencil_D2Q9, MRT_STANDARD, BGK_EQUILIBRIUM, DELLAR_D2Q9, RELAX_FULL, "D2Q9-MRT-Dellar-full" },
		{ 2, Stencil_D2Q9, MRT_STANDARD, BGK_EQUILIBRIUM, DELLAR_D2Q9, DELLAR_RELAX_ONLY_N, "D2Q9-MRT-Dellar-N" },
		{ 2, Stencil_D2Q9, MRT_STANDARD, BGK_EQUILIBRIUM, LALLEMAND_D2Q9, RELAX_FULL, "D2Q9-MRT-Lallemand" },
		{ 2, Stencil_D2Q25H, BGK_STANDARD, QUARTIC_EQUILIBRIUM, DELLAR_D2Q9, RELAX_FULL, "D2Q25H-BGK-quartic" },
		{ 2, Stencil_D2Q19H, BGK_STANDARD, QUARTIC_EQUILIBRIUM, DELLAR_D2Q9, RELAX_FULL, "D2Q19H-BGK-quartic" },
		{ 2, Stencil_D2Q19V, BGK_STANDARD, QUARTIC_EQUILIBRIUM, DELLAR_D2Q9, RELAX_FULL, "D2Q19V-BGK-quartic" },
		{ 3, Stencil_D3Q13, BGK_STANDARD, BGK_EQUILIBRIUM, DELLAR_D2Q9, RELAX_FULL, "D3Q13-BGK" },
		{ 3, Stencil_D3Q15, BGK_STANDARD, BGK_EQUILIBRIUM, DELLAR_D2Q9, RELAX_FULL, "D3Q15-BGK" },
		{ 3, Stencil_D3Q15, BGK_REGULARIZED, BGK_EQUILIBRIUM, DELLAR_D2Q9, RELAX_FULL, "D3Q15-regularized" },
		{ 3, Stencil_D3Q19, BGK_STANDARD, BGK_EQUILIBRIUM, DELLAR_D2Q9, RELAX_FULL, "D3Q19-BGK" },
		{ 3, Stencil_D3Q19, BGK_REGULARIZED, BGK_EQUILIBRIUM, DELLAR_D2Q9, RELAX_FULL, "D3Q19-regularized" },
		{ 3, Stencil_D3Q19, MRT_STANDARD, BGK_EQUILIBRIUM, DHUMIERES_D3Q19, RELAX_FULL, "D3Q19-MRT-full" },
		{ 3, Stencil_D3Q19, MRT_STANDARD, BGK_EQUILIBRIUM, DHUMIERES_D3Q19, RELAX_DHUMIERES_PAPER, "D3Q19-MRT-paper" },
		{ 3, Stencil_D3Q21, BGK_STANDARD, BGK_EQUILIBRIUM, DELLAR_D2Q9, RELAX_FULL, "D3Q21-BGK" },
		{ 3, Stencil_D3Q27, BGK_STANDARD, BGK_EQUILIBRIUM, DELLAR_D2Q9, RELAX_FULL, "D3Q27-BGK" },
		{ 3, Stencil_D3Q27, BGK_STANDARD, QUARTIC_EQUILIBRIUM, DELLAR_D2Q9, RELAX_FULL, "D3Q27-BGK-quartic" },
		{ 3, Stencil_D3V27, BGK_STANDARD, BGK_EQUILIBRIUM, DELLAR_D2Q9, RELAX_FULL, "D3V27-BGK" },
		{ 3, Stencil_D3V27, BGK_STANDARD, QUARTIC_EQUILIBRIUM, DELLAR_D2Q9, RELAX_FULL, "D3V27-BGK-quartic" },
		{ 3, Stencil_D3Q27, BGK_REGULARIZED, BGK_EQUILIBRIUM, DELLAR_D2Q9, RELAX_FULL, "D3Q27-regularized" },
		{ 3, Stencil_D3Q45, BGK_STANDARD, BGK_EQUILIBRIUM, DELLAR_D2Q9, RELAX_FULL, "D3Q45-BGK" },
		{ 3, Stencil_D3Q45, BGK_STANDARD, QUARTIC_EQUILIBRIUM, DELLAR_D2Q9, RELAX_FULL, "D3Q45-BGK-quartic" },
		{ 3, Stencil_D3Q77, BGK_STANDARD, BGK_EQUILIBRIUM, DELLAR_D2Q9, RELAX_FULL, "D3Q77-BGK" },
		{ 3, Stencil_D3Q77, BGK_STANDARD, QUARTIC_EQUILIBRIUM, DELLAR_D2Q9, RELAX_FULL, "D3Q77-BGK-quartic" },
	};
	return v;
}

static const StencilInfo& info(StencilType t) {
	for (auto& i : all_stencils()) if (i.type == t) return i;
	throw std::runtime_error("stencil");
}

// the populations of n nodes, in direction-major order
struct Pop {
	size_t n, q, d;
	std::vector<std::vector<double>> f, g; // [node][direction]
	std::vector<double> rho, T, mask;
	std::vector<std::vector<double>> u; // [node][axis]
	Pop(size_t n, size_t q, size_t d) : n(n), q(q), d(d), f(n, std::vector<double>(q, 0.0)),
		g(n, std::vector<double>(q, 0.0)), rho(n, -7.0), T(n, 1.0), mask(n, 0.0), u(n, std::vector<double>(d, -7.0)) {}
};

struct Setup {
	const Combo& c;
	double scaling, nu, dt;
	ForceType forcing;
	std::vector<double> F; // empty: no force object
	boost::shared_ptr<Stencil> st;
	boost::shared_ptr<SolverConfiguration> cfg;
	double tau() const { return nu / (dt * st->getSpeedOfSoundSquare()) + 0.5; }
	Setup(const Combo& c, double s, double nu, double dt, ForceType ft, std::vector<double> F) :
			c(c), scaling(s), nu(nu), dt(dt), forcing(ft), F(F) {
		static std::map<int, boost::shared_ptr<Stencil> > unit; // some are expensive to set up
		if (s == 1.0) { auto& x = unit[(int) c.st]; if (!x) x = info(c.st).make(1.0); st = x; }
		else st = info(c.st).make(s);
		cfg = boost::make_shared<SolverConfiguration>();
		cfg->setStencil(c.st);
		cfg->setCollisionScheme(c.coll);
		cfg->setEquilibriumScheme(c.eq);
		cfg->setMRTBasis(c.basis);
		cfg->setMRTRelaxationTimes(c.relax);
		cfg->setForcingScheme(ft);
		cfg->setStencilScaling(s);
	}
};

struct Fields {
	dealii::IndexSet own;
	DistributionFunctions f, g;
	distributed_vector rho, T, mask;
	std::vector<distributed_vector> u;
	Fields(const Pop& p) {
		own = dealii::complete_index_set(p.n);
		f.reinit(p.q, own, MPI_COMM_WORLD);
		g.reinit(p.q, own, MPI_COMM_WORLD);
		rho.reinit(own, MPI_COMM_WORLD); T.reinit(own, MPI_COMM_WORLD); mask.reinit(own, MPI_COMM_WORLD);
		u.resize(p.d);
		for (auto& x : u) x.reinit(own, MPI_COMM_WORLD);
		for (size_t k = 0; k < p.n; k++) {
			for (size_t i = 0; i < p.q; i++) { f.at(i)(k) = p.f[k][i]; g.at(i)(k) = p.g[k][i]; }
			rho(k) = p.rho[k]; T(k) = p.T[k]; mask(k) = p.mask[k];
			for (size_t j = 0; j < p.d; j++) u[j](k) = p.u[k][j];
		}
	}
	void back(Pop& p) {
		for (size_t k = 0; k < p.n; k++) {
			for (size_t i = 0; i < p.q; i++) { p.f[k][i] = f.at(i)(k); p.g[k][i] = g.at(i)(k); }
			p.rho[k] = rho(k); p.T[k] = T(k); p.mask[k] = mask(k);
			for (size_t j = 0; j < p.d; j++) p.u[k][j] = u[j](k);
		}
	}
};

template<size_t dim> ProblemDescription<dim>& problem(const std::vector<double>& F) {
	static typename Periodic<dim>::type* pd = nullptr;
	if (!pd) pd = new typename Periodic<dim>::type(1);
	dealii::Tensor<1, dim> t;
	for (size_t j = 0; j < F.size(); j++) t[j] = F[j];
	pd->setExternalForce(boost::make_shared<ConstantExternalForce<dim> >(t));
	return *pd;
}

template<size_t dim> Pop run(const Setup& s, const Pop& p, bool init) {
	Fields v(p);
	Pop r = p;
	selectCollision<dim>(*s.cfg, problem<dim>(s.F), v.f, v.rho, v.u, v.own, s.nu, s.dt, *s.st, init);
	v.back(r);
	return r;
}
static Pop collide(const Setup& s, const Pop& p, bool init = false) {
	return s.c.dim == 2 ? run<2>(s, p, init) : run<3>(s, p, init);
}

static void fill(Pop& p, const Lattice& L, double noise, double ulim, bool quartic) {
	for (size_t k = 0; k < p.n; k++) {
		double rho = rng().logu(0.05, 20);
		std::vector<double> u(p.d);
		for (auto& x : u) x = rng().uni(-ulim, ulim);
		for (size_t i = 0; i < p.q; i++) {
			double fe = L.hermite(i, rho, u, 1.0, quartic ? 4 : 2);
			p.f[k][i] = fe + L.w[i] * rho * noise * rng().uni(-1, 1);
		}
	}
}

static Setup random_setup(const Combo& c, bool force, ForceType ft) {
	double s = rng().flip(0.3) ? 1.0 : rng().logu(0.2, 300);
	double dt = rng().logu(1e-5, 1e-1);
	boost::shared_ptr<Stencil> st = info(c.st).make(s);
	double tau = rng().pick(std::vector<double>{ 0.5003, 0.51, 0.6, 0.8, 1.0, 1.3, 2.0, 7.0, rng().uni(0.5, 3) + 1e-4 });
	double nu = (tau - 0.5) * dt * st->getSpeedOfSoundSquare();
	std::vector<double> F;
	if (force) for (size_t j = 0; j < c.dim; j++) F.push_back(rng().flip(0.2) ? 0.0 : rng().uni(-1, 1) * 0.02 * s / dt);
	return Setup(c, s, nu, dt, ft, F);
}

static std::string where(const Setup& s, size_t k) {
	return fmt("node %zu, scaling %g, tau %g, dt %g", k, s.scaling, s.tau(), s.dt);
}

// C02: mass and momentum conserved, density and velocity reported; each node on its own
static void conservation(const Combo& c) {
	const bool quartic = c.eq == QUARTIC_EQUILIBRIUM;
	for (size_t rep = 0; rep < (info(c.st).q > 40 ? scale(8, 400) : scale(30, 1500)); rep++) {
		Setup s = random_setup(c, false, SHIFTING_VELOCITY);
		Lattice L(*s.st);
		Pop p(rng().below(40) + 1, L.q, c.dim);
		fill(p, L, rng().pick(std::vector<double>{ 0, 0.01, 0.2, 0.9 }), 0.15 * std::sqrt(L.cs2), quartic);
		Pop r = collide(s, p);
		for (size_t k = 0; k < p.n; k++) {
			seen(std::string(c.name) + fmt("%.17g", p.f[k][0]));
			double m0 = 0, m1 = 0, a = 0;
			for (size_t i = 0; i < L.q; i++) { m0 += p.f[k][i]; m1 += r.f[k][i]; a += std::fabs(p.f[k][i]) + std::fabs(r.f[k][i]); }
			near(m1, m0, 1e-11 * a, std::string("mass:") + c.name, where(s, k));
			near(r.rho[k], m0, 1e-11 * a, std::string("density-reported:") + c.name, where(s, k));
			for (size_t j = 0; j < c.dim; j++) {
				double j0 = 0, j1 = 0;
				for (size_t i = 0; i < L.q; i++) { j0 += L.e[i][j] * p.f[k][i]; j1 += L.e[i][j] * r.f[k][i]; }
				near(j1, j0, 4e-11 * a, std::string("momentum:") + c.name, where(s, k) + fmt(" axis %zu", j));
				near(r.u[k][j] / s.scaling, j0 / m0, 4e-11 * a / m0, std::string("velocity-reported:") + c.name, where(s, k) + fmt(" axis %zu", j));
			}
		}
		// a node's result does not depend on its neighbours in the array
		Pop rev = p;
		std::reverse(rev.f.begin(), rev.f.end());
		Pop rr = collide(s, rev);
		for (size_t k = 0; k < p.n; k++)
			for (size_t i = 0; i < L.q; i++)
				near(rr.f[p.n - 1 - k][i], r.f[k][i], 1e-13 * r.rho[k], std::string("node-independent:") + c.name, where(s, k));
		sample(std::string(c.name) + ": " + where(s, 0) + fmt(", rho %g", r.rho[0]));
	}
}

// the same while the initial populations are being relaxed: the velocity stays prescribed
static void initialisation(const Combo& c) {
	const bool quartic = c.eq == QUARTIC_EQUILIBRIUM;
	for (size_t rep = 0; rep < scale(6, 200); rep++) {
		Setup s = random_setup(c, false, SHIFTING_VELOCITY);
		Lattice L(*s.st);
		Pop p(10, L.q, c.dim);
		fill(p, L, 0.1, 0.1 * std::sqrt(L.cs2), quartic);
		for (auto& u : p.u) for (auto& x : u) x = rng().uni(-0.1, 0.1) * s.scaling;
		Pop r = collide(s, p, true);
		for (size_t k = 0; k < p.n; k++) {
			seen(std::string(c.name) + fmt("%.17g", p.f[k][0]));
			double m0 = 0, m1 = 0;
			for (size_t i = 0; i < L.q; i++) { m0 += p.f[k][i]; m1 += r.f[k][i]; }
			near(m1, m0, 1e-11 * m0, std::string("init-mass:") + c.name, where(s, k));
			near(r.rho[k], m0, 1e-11 * m0, std::string("init-density:") + c.name, where(s, k));
			for (size_t j = 0; j < c.dim; j++)
				check(r.u[k][j] == p.u[k][j], std::string("init-velocity-kept:") + c.name, where(s, k));
		}
	}
}

// C03: what the collision relaxes to is the Maxwell-Boltzmann expansion, and it is left alone
static void equilibrium(const Combo& c) {
	const bool quartic = c.eq == QUARTIC_EQUILIBRIUM;
	for (size_t rep = 0; rep < scale(30, 1500); rep++) {
		Setup s = random_setup(c, false, SHIFTING_VELOCITY);
		Lattice L(*s.st);
		Pop p(8, L.q, c.dim);
		fill(p, L, 0, 0.2 * std::sqrt(L.cs2), quartic);
		Pop r = collide(s, p);
		for (size_t k = 0; k < p.n; k++) {
			seen(std::string(c.name) + fmt("fix %.17g", p.f[k][0]));
			for (size_t i = 0; i < L.q; i++)
				near(r.f[k][i], p.f[k][i], 1e-11 * r.rho[k] * (1 + L.wtol), std::string("equilibrium-fixed-point:") + c.name, where(s, k) + fmt(" direction %zu", i));
		}
		if (c.coll == BGK_STANDARD) {
			// tau = 1: the step lands on the equilibrium itself
			s.nu = 0.5 * s.dt * s.st->getSpeedOfSoundSquare();
			fill(p, L, 0.3, 0.2 * std::sqrt(L.cs2), quartic);
			r = collide(s, p);
			for (size_t k = 0; k < p.n; k++) {
				seen(std::string(c.name) + fmt("tau1 %.17g", p.f[k][0]));
				double rho = 0;
				std::vector<double> u(c.dim, 0.0);
				for (size_t i = 0; i < L.q; i++) { rho += p.f[k][i]; for (size_t j = 0; j < c.dim; j++) u[j] += L.e[i][j] * p.f[k][i]; }
				for (auto& x : u) x /= rho;
				for (size_t i = 0; i < L.q; i++)
					near(r.f[k][i], L.hermite(i, rho, u, 1.0, quartic ? 4 : 2), 1e-11 * rho, std::string("equilibrium-reached:") + c.name, where(s, k) + fmt(" direction %zu", i));
				// momentum flux of the equilibrium, where the lattice integrates the expansion exactly
				if (info(c.st).order >= (quartic ? 6 : 4)) for (size_t a = 0; a < c.dim; a++) for (size_t b = 0; b <= a; b++) {
					double P = 0;
					for (size_t i = 0; i < L.q; i++) P += L.e[i][a] * L.e[i][b] * r.f[k][i];
					near(P, rho * ((a == b) * L.cs2 + u[a] * u[b]), 1e-7 * rho, std::string("momentum-flux:") + c.name, where(s, k) + fmt(" %zu%zu", a, b));
				}
			}
		}
	}
}

// C04: shear stress decays by 1-1/tau with tau = nu/(cs^2 dt) + 1/2
static void viscosity(const Combo& c) {
	const bool quartic = c.eq == QUARTIC_EQUILIBRIUM;
	for (size_t rep = 0; rep < scale(30, 1500); rep++) {
		Setup s = random_setup(c, false, SHIFTING_VELOCITY);
		Lattice L(*s.st);
		Pop p(8, L.q, c.dim);
		fill(p, L, 0.1, 0.1 * std::sqrt(L.cs2), quartic);
		Pop r = collide(s, p);
		const double cs2scaled = L.cs2 * s.scaling * s.scaling;
		const double om = 1.0 / (s.nu / (s.dt * cs2scaled) + 0.5);
		for (size_t k = 0; k < p.n; k++) {
			seen(std::string(c.name) + fmt("visc %.17g", p.f[k][0]));
			double rho = 0;
			std::vector<double> u(c.dim, 0.0);
			for (size_t i = 0; i < L.q; i++) { rho += p.f[k][i]; for (size_t j = 0; j < c.dim; j++) u[j] += L.e[i][j] * p.f[k][i]; }
			for (auto& x : u) x /= rho;
			auto stress = [&](const std::vector<double>& f, size_t a, size_t b) {
				double P = 0;
				for (size_t i = 0; i < L.q; i++)
					P += L.e[i][a] * L.e[i][b] * (f[i] - L.hermite(i, rho, u, 1.0, quartic ? 4 : 2));
				return P;
			};
			for (size_t a = 0; a < c.dim; a++) for (size_t b = 0; b <= a; b++) {
				double before, after;
				if (a != b) { before = stress(p.f[k], a, b); after = stress(r.f[k], a, b); }
				else if (a > 0) { // normal stress difference
					before = stress(p.f[k], a, a) - stress(p.f[k], 0, 0); after = stress(r.f[k], a, a) - stress(r.f[k], 0, 0);
				} else continue;
				near(after, (1 - om) * before, 1e-9 * rho, std::string("stress-relaxation:") + c.name, where(s, k) + fmt(" component %zu%zu", a, b));
			}
			if (c.coll == BGK_STANDARD)
				for (size_t i = 0; i < L.q; i++) {
					double fe = L.hermite(i, rho, u, 1.0, quartic ? 4 : 2);
					near(r.f[k][i], fe + (1 - om) * (p.f[k][i] - fe), 1e-10 * rho, std::string("bgk-relaxation:") + c.name, where(s, k) + fmt(" direction %zu", i));
				}
		}
	}
}

// C06: a constant force adds dt F to the momentum of every node; the reported velocity is half way
static void force(const Combo& c, ForceType ft, const char* ftname) {
	const bool quartic = c.eq == QUARTIC_EQUILIBRIUM;
	const std::string n = std::string(c.name) + "," + ftname;
	for (size_t rep = 0; rep < scale(20, 1000); rep++) {
		Setup s = random_setup(c, true, ft);
		bool any = false;
		for (double x : s.F) any = any || x != 0;
		if (!any) s.F[0] = 0.01 * s.scaling / s.dt;
		Lattice L(*s.st);
		Pop p(8, L.q, c.dim);
		fill(p, L, 0.05, 0.1 * std::sqrt(L.cs2), quartic);
		Pop r = collide(s, p);
		for (size_t k = 0; k < p.n; k++) {
			seen(n + fmt("%.17g", p.f[k][0]));
			double m0 = 0, m1 = 0, a = 0;
			for (size_t i = 0; i < L.q; i++) { m0 += p.f[k][i]; m1 += r.f[k][i]; a += std::fabs(p.f[k][i]) + std::fabs(r.f[k][i]); }
			near(m1, m0, 1e-11 * a, "force-mass:" + n, where(s, k));
			near(r.rho[k], m0, 1e-11 * a, "force-density:" + n, where(s, k));
			for (size_t j = 0; j < c.dim; j++) {
				double j0 = 0, j1 = 0;
				for (size_t i = 0; i < L.q; i++) { j0 += L.e[i][j] * p.f[k][i]; j1 += L.e[i][j] * r.f[k][i]; }
				near(j1, j0 + s.dt * s.F[j] / s.scaling, 1e-10 * a, "force-momentum:" + n, where(s, k) + fmt(" axis %zu", j));
				near(r.u[k][j], s.scaling * j0 / m0 + 0.5 * s.dt * s.F[j] / m0, 1e-10 * s.scaling * a / m0, "force-velocity:" + n, where(s, k) + fmt(" axis %zu", j));
			}
		}
	}
}

// every other combination is refused with an exception and leaves the populations alone
template<size_t dim> void refused_dim() {
	std::vector<CollisionSchemeName> colls = { BGK_STANDARD, BGK_STANDARD_TRANSFORMED, BGK_STEADY_STATE, BGK_MULTIPHASE,
		BGK_INCOMPRESSIBLE, MRT_STANDARD, MRT_ENTROPIC, ENTROPIC_STABILIZED, KBC_STANDARD, KBC_CENTRAL, BGK_MULTI_AM4,
		BGK_MULTI_BDF2, BGK_REGULARIZED };
	std::vector<EquilibriumSchemeName> eqs = { BGK_EQUILIBRIUM, QUARTIC_EQUILIBRIUM, INCOMPRESSIBLE_EQUILIBRIUM, STEADYSTATE_EQUILIBRIUM, ENTROPIC_EQUILIBRIUM };
	for (auto& I : all_stencils()) if (I.d == dim) for (auto cs : colls) for (auto es : eqs) {
		bool offered = false;
		for (auto& c : combos()) offered = offered || (c.st == I.type && c.coll == cs && c.eq == es);
		if (offered) continue;
		Combo c = { dim, I.type, cs, es, DELLAR_D2Q9, RELAX_FULL, "refused" };
		Setup s(c, 1.0, 0.1, 0.1, SHIFTING_VELOCITY, {});
		Lattice L(*s.st);
		Pop p(3, L.q, dim);
		fill(p, L, 0.1, 0.05, false);
		Fields v(p);
		bool thrown = false;
		seen(std::string(I.name) + fmt(" %d %d", (int) cs, (int) es));
		try {
			selectCollision<dim>(*s.cfg, problem<dim>(s.F), v.f, v.rho, v.u, v.own, s.nu, s.dt, *s.st, false);
		} catch (CollisionException&) { thrown = true; }
		check(thrown, "silently-not-collided", std::string(I.name) + fmt(" scheme %d equilibrium %d", (int) cs, (int) es));
		Pop r = p; v.back(r);
		check(r.f == p.f, "refused-but-changed", std::string(I.name));
	}
}

// a density that is not positive is reported wherever it sits
static void bad_density(const Combo& c) {
	for (size_t rep = 0; rep < scale(6, 60); rep++) {
		Setup s = random_setup(c, false, SHIFTING_VELOCITY);
		Lattice L(*s.st);
		Pop p(9, L.q, c.dim);
		fill(p, L, 0.1, 0.05, false);
		size_t k = rng().below(p.n);
		double x = rng().pick(std::vector<double>{ 0.0, -1.0, -1e-3 });
		for (size_t i = 0; i < L.q; i++) p.f[k][i] = x * L.w[i];
		bool thrown = false;
		seen(std::string(c.name) + fmt(" %zu %g", k, x));
		try { collide(s, p); } catch (NATriuMException&) { thrown = true; }
		check(thrown, "bad-density-unnoticed", std::string(c.name) + fmt(": node %zu of 9 has density %g", k, x));
	}
}

// a process without nodes has nothing to collide
static void no_nodes(const Combo& c) {
	Setup s = random_setup(c, false, SHIFTING_VELOCITY);
	Lattice L(*s.st);
	Pop p(0, L.q, c.dim);
	seen(c.name);
	try { collide(s, p); }
	catch (std::exception& e) { violation("no-nodes", std::string(c.name) + ": " + e.what()); }
}

// models that run through the older interface (iterative initialisation)
typedef boost::shared_ptr<CollisionModel> (*MakeModel)(double, double, boost::shared_ptr<Stencil>);
template<class M> boost::shared_ptr<CollisionModel> mk(double tau, double dt, boost::shared_ptr<Stencil> s) { return boost::make_shared<M>(tau, dt, s); }
struct Legacy { const char* name; MakeModel make; std::vector<StencilType> st; };
static const std::vector<Legacy>& legacy() {
	static const std::vector<Legacy> v = {
		{ "BGKStandard", mk<BGKStandard>, { Stencil_D2Q9, Stencil_D3Q15, Stencil_D3Q19 } },
		{ "BGKRegularized", mk<BGKRegularized>, { Stencil_D2Q9, Stencil_D3Q19 } },
		{ "MRTStandard", mk<MRTStandard>, { Stencil_D2Q9 } },
		{ "MRTEntropic", mk<MRTEntropic>, { Stencil_D2Q9, Stencil_D3Q19 } },
		{ "KBCStandard", mk<KBCStandard>, { Stencil_D2Q9, Stencil_D3Q15 } },
		{ "KBCCentral", mk<KBCCentral>, { Stencil_D2Q9 } },
		{ "EntropicStabilized", mk<EntropicStabilized>, { Stencil_D2Q9 } },
	};
	return v;
}
static void legacy_case(const Legacy& M, StencilType t) {
	std::string n = std::string(M.name) + "," + info(t).name;
	for (size_t rep = 0; rep < scale(20, 500); rep++) {
		double sc = rng().flip() ? 1.0 : rng().logu(0.2, 50);
		boost::shared_ptr<Stencil> st = info(t).make(sc);
		Lattice L(*st);
		double tau = rng().uni(0.02, 2.0), dt = rng().logu(1e-4, 1e-1);
		boost::shared_ptr<CollisionModel> m = M.make(tau, dt, st);
		Pop p(10, L.q, L.d);
		fill(p, L, rng().pick(std::vector<double>{ 0.0, 0.02, 0.1 }), 0.08 * std::sqrt(L.cs2), false);
		for (auto& x : p.rho) x = 1;
		Fields v(p);
		m->collideAll(v.f, v.rho, v.u, v.own, false);
		Pop r = p;
		v.back(r);
		for (size_t k = 0; k < p.n; k++) {
			seen(n + fmt("%.17g", p.f[k][0]));
			double m0 = 0, m1 = 0, a = 0;
			for (size_t i = 0; i < L.q; i++) { m0 += p.f[k][i]; m1 += r.f[k][i]; a += std::fabs(p.f[k][i]) + std::fabs(r.f[k][i]); }
			std::string w = fmt("node %zu scaling %g tau %g", k, sc, tau);
			near(m1, m0, 1e-10 * a, "model-mass:" + n, w);
			near(r.rho[k], m0, 1e-10 * a, "model-density:" + n, w);
			for (size_t j = 0; j < L.d; j++) {
				double j0 = 0, j1 = 0;
				for (size_t i = 0; i < L.q; i++) { j0 += L.e[i][j] * p.f[k][i]; j1 += L.e[i][j] * r.f[k][i]; }
				near(j1, j0, 1e-10 * a, "model-momentum:" + n, w);
				near(r.u[k][j] / sc, j0 / m0, 1e-10 * a / m0, "model-velocity:" + n, w);
			}
		}
	}
}
static void legacy_equilibrium(const Legacy& M, StencilType t) {
	std::string n = std::string(M.name) + "," + info(t).name;
	if (n.find("KBC") == 0) return; // these have an entropic equilibrium of their own
	for (size_t rep = 0; rep < scale(60, 3000); rep++) {
		double sc = rng().flip() ? 1.0 : rng().logu(0.2, 50);
		boost::shared_ptr<Stencil> st = info(t).make(sc);
		Lattice L(*st);
		boost::shared_ptr<CollisionModel> m = M.make(rng().uni(0.02, 2.0), 0.1, st);
		double rho = rng().logu(0.1, 10);
		numeric_vector u(L.d);
		std::vector<double> us(L.d), feq(L.q);
		for (size_t j = 0; j < L.d; j++) { us[j] = rng().uni(-0.1, 0.1); u(j) = us[j] * sc; }
		m->getEquilibriumDistributions(feq, u, rho);
		seen(n + fmt("feq %.17g", rho));
		for (size_t i = 0; i < L.q; i++) {
			near(feq[i], L.hermite(i, rho, us, 1.0, 2), 1e-11 * rho, "model-equilibrium:" + n, fmt("direction %zu scaling %g", i, sc));
			near(m->getEquilibriumDistribution(i, u, rho), feq[i], 1e-11 * rho, "model-equilibrium-single:" + n, fmt("direction %zu scaling %g", i, sc));
		}
	}
}

// C05: with internal energy
struct TCombo { size_t dim; StencilType st; const char* name; };
template<size_t dim> static void thermal(const TCombo& t, bool pr, bool suth) {
	Combo c = { t.dim, t.st, BGK_STANDARD, QUARTIC_EQUILIBRIUM, DELLAR_D2Q9, RELAX_FULL, t.name };
	const bool big = info(t.st).q > 100;
	for (size_t rep = 0; rep < scale(big ? 2 : 20, big ? 60 : 800); rep++) {
		Setup s = random_setup(c, false, SHIFTING_VELOCITY);
		double gamma = rng().pick(std::vector<double>{ 1.4, 5. / 3, 1.2, rng().uni(1.1, 1.66) });
		double prandtl = rng().uni(0.5, 1.5);
		s.cfg->setHeatCapacityRatioGamma(gamma);
		if (pr) { s.cfg->setPrandtlNumber(prandtl); }
		if (suth) s.cfg->setSutherlandLaw();
		const std::string n = std::string(t.name) + (pr ? ",Pr" : "") + (suth ? ",Sutherland" : "");
		const double cv = 1 / (gamma - 1);
		Lattice L(*s.st);
		Pop p(big ? 2 : 8, L.q, dim);
		for (size_t k = 0; k < p.n; k++) {
			double rho = rng().logu(0.2, 5), T = rng().uni(0.8, 1.25);
			std::vector<double> u(dim);
			for (auto& x : u) x = rng().uni(-0.2, 0.2) * std::sqrt(L.cs2);
			for (size_t i = 0; i < L.q; i++) {
				p.f[k][i] = L.hermite(i, rho, u, T, 4) + L.w[i] * rho * 0.02 * rng().uni(-1, 1);
				p.g[k][i] = L.hermite(i, rho, u, T, 4) * T * (2 * cv - dim) + L.w[i] * rho * 0.02 * rng().uni(-1, 1);
			}
		}
		Fields v(p);
		selectCollision<dim>(*s.cfg, problem<dim>(s.F), v.f, v.g, v.rho, v.u, v.T, v.mask, v.own, s.nu, s.dt, *s.st, false);
		Pop r = p; v.back(r);
		for (size_t k = 0; k < p.n; k++) {
			seen(n + fmt("%.17g", p.f[k][0]));
			double m0 = 0, m1 = 0, E0 = 0, E1 = 0, a = 0, uu = 0;
			std::vector<double> u(dim, 0.0);
			for (size_t i = 0; i < L.q; i++) {
				double ee = 0;
				for (size_t j = 0; j < dim; j++) { ee += L.e[i][j] * L.e[i][j]; u[j] += L.e[i][j] * p.f[k][i]; }
				m0 += p.f[k][i]; m1 += r.f[k][i];
				E0 += ee / L.cs2 * p.f[k][i] + p.g[k][i]; E1 += ee / L.cs2 * r.f[k][i] + r.g[k][i];
				a += (1 + ee / L.cs2) * std::fabs(p.f[k][i]) + std::fabs(p.g[k][i]);
			}
			for (auto& x : u) { x /= m0; uu += x * x; }
			const std::string w = where(s, k) + fmt(" gamma %g Pr %g", gamma, prandtl);
			const double wt = big ? 1e-6 : 1e-9;
			near(m1, m0, wt * 1e-1 * a, "energy-mass:" + n, w);
			near(r.rho[k], m0, 1e-10 * a, "energy-density:" + n, w);
			near(E1, E0, wt * 1e1 * a, "energy:" + n, w);
			double T = (E0 - m0 * uu / L.cs2) / (2 * m0 * cv);
			near(r.T[k], T, 1e-10 * a / m0, "temperature-reported:" + n, w);
			for (size_t j = 0; j < dim; j++) {
				double j1 = 0;
				for (size_t i = 0; i < L.q; i++) j1 += L.e[i][j] * r.f[k][i];
				near(j1, m0 * u[j], wt * a, "energy-momentum:" + n, w);
				near(r.u[k][j] / s.scaling, u[j], 1e-10 * a / m0, "energy-velocity:" + n, w);
			}
			// stress relaxation: dynamic viscosity nu (times the temperature law (T / 0.85)^0.7 if it is on)
			// heat flux relaxation: thermal diffusivity nu / Pr
			if (T > 0.05) {
				double law = suth ? std::pow(T / 0.85, 0.7) : 1.0;
				double half = (s.tau() - 0.5) * law / (T * m0);
				double om = 1 / (half + 0.5), omq = pr ? 1 / (half / prandtl + 0.5) : om;
				std::vector<double> fe(L.q), ge(L.q);
				for (size_t i = 0; i < L.q; i++) { fe[i] = L.hermite(i, m0, u, T, 4); ge[i] = fe[i] * T * (2 * cv - dim); }
				for (size_t a1 = 0; a1 < dim; a1++) for (size_t b = 0; b < a1; b++) {
					double s0 = 0, s1 = 0;
					for (size_t i = 0; i < L.q; i++) {
						s0 += L.e[i][a1] * L.e[i][b] * (p.f[k][i] - fe[i]); s1 += L.e[i][a1] * L.e[i][b] * (r.f[k][i] - fe[i]);
					}
					near(s1, (1 - om) * s0, wt * 1e1 * a, "energy-stress-relaxation:" + n, w);
				}
				for (size_t a1 = 0; a1 < dim; a1++) {
					double f0 = 0, f1 = 0, g0 = 0, g1 = 0;
					for (size_t i = 0; i < L.q; i++) {
						double cc = 0, ca = L.e[i][a1] - u[a1];
						for (size_t j = 0; j < dim; j++) cc += (L.e[i][j] - u[j]) * (L.e[i][j] - u[j]) / L.cs2;
						f0 += cc * ca * (p.f[k][i] - fe[i]); f1 += cc * ca * (r.f[k][i] - fe[i]);
						g0 += ca * (p.g[k][i] - ge[i]); g1 += ca * (r.g[k][i] - ge[i]);
					}
					near(f1, (1 - omq) * f0, wt * 1e1 * a, "heat-flux-relaxation-f:" + n, w);
					near(g1, (1 - omq) * g0, wt * 1e1 * a, "heat-flux-relaxation-g:" + n, w + fmt(" T %g", T));
				}
			}
		}
		sample(n + ": " + where(s, 0) + fmt(" gamma %g Pr %g T %g", gamma, prandtl, r.T[0]));
	}
}
// local equilibrium with internal energy is left alone
template<size_t dim> static void thermal_fixed(const TCombo& t, bool pr) {
	Combo c = { t.dim, t.st, BGK_STANDARD, QUARTIC_EQUILIBRIUM, DELLAR_D2Q9, RELAX_FULL, t.name };
	const bool big = info(t.st).q > 100;
	for (size_t rep = 0; rep < scale(big ? 1 : 10, big ? 20 : 400); rep++) {
		Setup s = random_setup(c, false, SHIFTING_VELOCITY);
		double gamma = rng().uni(1.1, 1.66), cv = 1 / (gamma - 1);
		s.cfg->setHeatCapacityRatioGamma(gamma);
		if (pr) s.cfg->setPrandtlNumber(rng().uni(0.5, 1.5));
		Lattice L(*s.st);
		Pop p(2, L.q, dim);
		for (size_t k = 0; k < p.n; k++) {
			double rho = rng().logu(0.2, 5), T = rng().uni(0.8, 1.25);
			std::vector<double> u(dim);
			for (auto& x : u) x = rng().uni(-0.2, 0.2) * std::sqrt(L.cs2);
			for (size_t i = 0; i < L.q; i++) {
				p.f[k][i] = L.hermite(i, rho, u, T, 4);
				p.g[k][i] = p.f[k][i] * T * (2 * cv - dim);
			}
		}
		Fields v(p);
		selectCollision<dim>(*s.cfg, problem<dim>(s.F), v.f, v.g, v.rho, v.u, v.T, v.mask, v.own, s.nu, s.dt, *s.st, false);
		Pop r = p; v.back(r);
		for (size_t k = 0; k < p.n; k++) {
			seen(std::string(t.name) + fmt("fix%.17g", p.f[k][0]));
			for (size_t i = 0; i < L.q; i++) {
				near(r.f[k][i], p.f[k][i], (big ? 1e-5 : 1e-8) * r.rho[k], std::string("energy-fixed-point-f:") + t.name, where(s, k));
				near(r.g[k][i], p.g[k][i], (big ? 1e-4 : 1e-7) * r.rho[k], std::string("energy-fixed-point-g:") + t.name, where(s, k));
			}
		}
	}
}

void vh_cases(Suite& S) {
	for (auto& c : combos()) {
		S.push_back({ std::string("conservation ") + c.name, [&c] { conservation(c); } });
		S.push_back({ std::string("conservation-init ") + c.name, [&c] { initialisation(c); } });
		S.push_back({ std::string("conservation-density ") + c.name, [&c] { bad_density(c); no_nodes(c); } });
		S.push_back({ std::string("equilibrium ") + c.name, [&c] { equilibrium(c); } });
		S.push_back({ std::string("viscosity ") + c.name, [&c] { viscosity(c); } });
		S.push_back({ std::string("force shifting ") + c.name, [&c] { force(c, SHIFTING_VELOCITY, "shifting"); } });
		S.push_back({ std::string("force difference ") + c.name, [&c] { force(c, EXACT_DIFFERENCE, "difference"); } });
	}
	for (auto& M : legacy()) for (auto t : M.st) {
		S.push_back({ std::string("conservation model ") + M.name + info(t).name, [&M, t] { legacy_case(M, t); } });
		S.push_back({ std::string("equilibrium model ") + M.name + info(t).name, [&M, t] { legacy_equilibrium(M, t); } });
	}
	S.push_back({ "conservation refused 2D", [] { refused_dim<2>(); } });
	S.push_back({ "conservation refused 3D", [] { refused_dim<3>(); } });
	static const std::vector<TCombo> T = { { 2, Stencil_D2Q25H, "D2Q25H" }, { 2, Stencil_D2Q19H, "D2Q19H" }, { 2, Stencil_D2Q19V, "D2Q19V" },
		{ 2, Stencil_D2Q777, "D2Q777" }, { 3, Stencil_D3Q45, "D3Q45" }, { 3, Stencil_D3Q77, "D3Q77" } };
	for (auto& t : T) for (int pr = 0; pr < 2; pr++) {
		for (int su = 0; su < 2; su++)
			S.push_back({ std::string("thermal ") + t.name + fmt(" %d%d", pr, su), [&t, pr, su] {
				if (t.dim == 2) thermal<2>(t, pr, su); else thermal<3>(t, pr, su); } });
		S.push_back({ std::string("thermal fixed ") + t.name + fmt(" %d", pr), [&t, pr] {
			if (t.dim == 2) thermal_fixed<2>(t, pr); else thermal_fixed<3>(t, pr); } });
	}
}

// C13 C16 C17 C22 C23 C30: complete simulations of the solver, watched step by step
#include "run.h"
#include "natrium/collision_advanced/CollisionSelection.h"
#include "natrium/advection/SemiLagrangian.h"
#include "natrium/advection/SEDGMinLee.h"
#include "natrium/timeintegration/RungeKutta5LowStorage.h"
#include "natrium/timeintegration/ThetaMethod.h"
#include "natrium/timeintegration/ExponentialTimeIntegrator.h"
#include "natrium/timeintegration/DealIIWrapper.h"
#include "natrium/solver/Checkpoint.h"
#include "deal.II/fe/fe_values.h"
using namespace natrium;
using namespace vh;
using namespace sim;

// The loop written down again: equilibrium start, collide, then (stream, collide) per step.
template<size_t dim>
struct Reference {
	const Run<dim>& R;
	boost::shared_ptr<box::Problem<dim> > prob;
	boost::shared_ptr<AdvectionOperator<dim> > op;
	boost::shared_ptr<SolverConfiguration> cfg;
	Lattice L;
	DistributionFunctions f;
	distributed_vector rho;
	std::vector<distributed_vector> u;
	double t = 0, dt = 0; // dt: the length of the last step
	bool own_collision;
	ModalFilter<dim> damping;
	std::map<dealii::types::global_dof_index, dealii::Point<dim> > pos;
	boost::shared_ptr<TimeIntegrator<distributed_sparse_block_matrix, distributed_block_vector> > ti;
	Reference(const Run<dim>& R_) : R(R_), L(*R_.st), f(R_.adv == SEDG) {
		prob = R.problem(true);
		cfg = R.config();
		dt = R.dt;
		if (R.adv == SEDG)
			op = boost::make_shared<SEDGMinLee<dim> >(*prob, R.order, cfg->getQuadrature(), R.points, R.st, R.flux == CENTRAL);
		else {
			op = boost::make_shared<SemiLagrangian<dim> >(*prob, R.order, cfg->getQuadrature(), R.points, R.st, R.dt);
		}
		op->setupDoFs();
		op->setDeltaT(R.dt);
		op->reassemble();
		op->mapDoFsToSupportPoints(pos);
		f.reinit(L.q, op->getLocallyOwnedDofs(), op->getLocallyRelevantDofs(), MPI_COMM_WORLD, R.adv == SEDG);
		rho.reinit(op->getLocallyOwnedDofs(), MPI_COMM_WORLD);
		u.resize(dim);
		for (auto& v : u) v.reinit(op->getLocallyOwnedDofs(), MPI_COMM_WORLD);
		for (size_t k = 0; k < op->getNumberOfDoFs(); k++) {
			rho(k) = R.rho(pos[k]);
			std::vector<double> v(dim);
			for (size_t j = 0; j < dim; j++) { u[j](k) = R.vel(pos[k], j); v[j] = u[j](k) / R.scaling; }
			for (size_t i = 0; i < L.q; i++) f.at(i)(k) = L.hermite(i, rho(k), v, 1, 2);
		}
		f.updateGhosted();
		if (R.filter) {
			Damping D = R.damp;
			D.dim = dim; D.p = R.order;
			damping = ModalFilter<dim>(*op->getFe(), D);
		}
		own_collision = R.model.coll == BGK_STANDARD && !R.force;
		typedef distributed_sparse_block_matrix M;
		typedef distributed_block_vector V;
		if (R.integrator == THETA_METHOD) ti = boost::make_shared<ThetaMethod<M, V> >(R.dt, f.getFStream(), 0.5);
		else if (R.integrator == EXPONENTIAL) ti = boost::make_shared<ExponentialTimeIntegrator<M, V> >(R.dt, L.q - 1);
		else if (R.emb.on) ti = boost::make_shared<DealIIWrapper<M, V> >(R.dt, R.deal, cfg->getDealLinearSolver(), R.emb.coarsen, R.emb.refine, R.dt / R.cfl * R.emb.min_cfl, R.dt / R.cfl * R.emb.max_cfl, R.emb.refine_tol, R.emb.coarsen_tol);
		else if (R.integrator == OTHER) ti = boost::make_shared<DealIIWrapper<M, V> >(R.dt, R.deal, cfg->getDealLinearSolver());
	}
	void collide() {
		if (!own_collision) {
			selectCollision<dim>(*cfg, *prob, f, rho, u, op->getLocallyOwnedDofs(), R.nu, dt, *R.st, false);
			return;
		}
		double om = 1.0 / (R.nu / (dt * L.cs2 * R.scaling * R.scaling) + 0.5);
		for (size_t k = 0; k < op->getNumberOfDoFs(); k++) {
			double r = 0;
			std::vector<double> j(dim, 0.0), x(L.q);
			for (size_t i = 0; i < L.q; i++) {
				x[i] = f.at(i)(k);
				r += x[i];
				for (size_t d = 0; d < dim; d++) j[d] += x[i] * L.e[i][d];
			}
			for (auto& v : j) v /= r;
			for (size_t i = 0; i < L.q; i++)
				f.at(i)(k) = x[i] - om * (x[i] - L.hermite(i, r, j, 1, R.model.eq == QUARTIC_EQUILIBRIUM ? 4 : 2));
			rho(k) = r;
			for (size_t d = 0; d < dim; d++) u[d](k) = j[d] * R.scaling;
		}
	}
	void filter(size_t step) {
		if (!R.filter || step % R.filter_interval != 0) return;
		for (size_t i = 0; i < L.q; i++) damping.apply(*op->getDoFHandler(), f.at(i));
		f.updateGhosted();
	}
	void regularize() {
		if (R.reg == NO_REGULARIZATION) return;
		std::vector<double> x(L.q);
		for (size_t k = 0; k < op->getNumberOfDoFs(); k++) {
			for (size_t i = 0; i < L.q; i++) x[i] = f.at(i)(k);
			x = second_order(L, x, R.reg == PSEUDO_ENTROPY_MAXIMIZATION);
			for (size_t i = 0; i < L.q; i++) f.at(i)(k) = x[i];
		}
		f.updateGhosted();
	}
	void stream() {
		auto& A = op->getSystemMatrix();
		if (R.adv == SEMI_LAGRANGIAN) {
			DistributionFunctions old(f);
			A.vmult(f.getFStream(), old.getFStream());
			old.updateGhosted();
			op->applyBoundaryConditions(old, f, t);
		} else if (ti) {
			distributed_block_vector b = op->getSystemVector();
			dt = ti->step(f.getFStream(), A, b, 0.0, dt);
		} else { // Carpenter and Kennedy 1994, solution 3
			static const double a[5] = { 0, -567301805773.0 / 1357537059087.0, -2404267990393.0 / 2016746695238.0, -3550918686646.0 / 2091501179385.0, -1275806237668.0 / 842570457699.0 };
			static const double b[5] = { 1432997174477.0 / 9575080441755.0, 5161836677717.0 / 13612068292357.0, 1720146321549.0 / 2090206949498.0, 3134564353537.0 / 4481467310338.0, 2277821191437.0 / 14882151754819.0 };
			distributed_block_vector& y = f.getFStream();
			distributed_block_vector d(y), k(y);
			d = 0;
			for (int s = 0; s < 5; s++) {
				A.vmult(k, y);
				k.add(1.0, op->getSystemVector());
				d *= a[s];
				d.add(R.dt, k);
				y.add(b[s], d);
			}
		}
		f.updateGhosted();
		t += dt;
	}
};

static void choose_integrator_(AdvectionSchemeName adv, TimeIntegratorName& ti, DealIntegratorName& di) {
	if (adv != SEDG || rng().flip(0.6)) return;
	switch (rng().below(3)) {
	case 0: ti = THETA_METHOD; break;
	case 1: ti = EXPONENTIAL; break;
	default: ti = OTHER; di = rng().pick(std::vector<DealIntegratorName>{ FORWARD_EULER, RK_THIRD_ORDER, RK_CLASSIC_FOURTH_ORDER }); break;
	}
}

// integrators that estimate their error and shorten the step when it is too large
template<size_t dim>
static void choose_embedded(Run<dim>& R) {
	if (R.adv != SEDG || rng().flip(0.6)) return;
	R.integrator = OTHER;
	R.deal = rng().pick(std::vector<DealIntegratorName>{ HEUN_EULER, BOGACKI_SHAMPINE, DOPRI, FEHLBERG, CASH_KARP });
	R.emb.on = true;
	R.emb.coarsen = rng().uni(1, 2);
	R.emb.refine = rng().uni(0.3, 0.95);
	R.emb.min_cfl = R.cfl * rng().uni(0.1, 1);
	R.emb.max_cfl = R.cfl * rng().uni(1, 3);
	R.emb.refine_tol = rng().logu(1e-8, 1e-1);
	R.emb.coarsen_tol = R.emb.refine_tol * rng().logu(1e-4, 0.5);
	if (rng().flip(0.3)) { // what a user gets who only selects the integrator
		SolverConfiguration c;
		R.emb = { true, c.getEmbeddedDealIntegratorCoarsenParameter(), c.getEmbeddedDealIntegratorRefinementParameter(), c.getEmbeddedDealIntegratorMinimumCFL(),
				c.getEmbeddedDealIntegratorMaximumCFL(), c.getEmbeddedDealIntegratorRefinementTolerance(), c.getEmbeddedDealIntegratorCoarsenTolerance() };
		metric("runs-with-default-step-control");
	}
	metric("runs-with-embedded-integrator");
}

template<size_t dim>
static void limit(Run<dim>& R) {
	bool walls = R.walls != NONE_;
	if (walls && R.adv == SEMI_LAGRANGIAN) { R.cfl = std::min(R.cfl, 0.9); R.finish(); }
	if (R.force) for (size_t d = 0; d < dim; d++) R.F[d] = rng().uni(-1, 1) * 0.01 * R.cs / R.dt;
}

// C16
template<size_t dim, bool smooth = false> static void trajectory() {
	for (size_t rep = 0; rep < scale(9, 200); rep++) {
		Run<dim> R = Run<dim>::random(scale(1200, 4000));
		limit(R);
		choose_integrator_(R.adv, R.integrator, R.deal);
		choose_embedded(R);
		if (smooth) {
			R.filter = R.adv == SEDG && rng().flip(0.75);
			if (!R.filter || rng().flip(0.3)) { // only for these velocity sets
				R.reg = dim == 2 && rng().flip() ? PSEUDO_ENTROPY_MAXIMIZATION_WITH_E : PSEUDO_ENTROPY_MAXIMIZATION;
				R.model = { int(dim), dim == 2 ? Stencil_D2Q9 : Stencil_D3Q19, BGK_STANDARD, BGK_EQUILIBRIUM, dim == 2 ? "D2Q9-BGK" : "D3Q19-BGK" };
				R.finish(); R.random_fields();
			}
			R.damp.is_new = rng().flip(0.3);
			R.damp.by_sum = rng().flip();
			R.damp.alpha = rng().logu(0.1, 40);
			R.damp.s = rng().logu(0.5, 20);
			R.damp.nc = 1 + rng().below(R.order + 1);
			R.filter_interval = 1 + rng().below(4);
			metric(R.filter ? "runs with filter" : "runs with stabilizer");
		}
		std::string what = R.str() + (smooth ? R.damp.str() + fmt(" interval %zu regularization %d", R.filter_interval, int(R.reg)) : std::string()) + fmt(" integrator %d/%d", int(R.integrator), int(R.deal)) + (R.emb.on ? fmt(" cfl from %.3g to %.3g tolerances %.3g %.3g", R.emb.min_cfl, R.emb.max_cfl, R.emb.coarsen_tol, R.emb.refine_tol) : std::string());
		std::string key = R.adv == SEDG ? "sedg" : "sl";
		sample(what);
		auto solver = boost::make_shared<CFDSolver<dim> >(R.config(), R.problem(false));
		Reference<dim> ref(R);
		const size_t n = ref.op->getNumberOfDoFs();
		check(solver->getNumberOfDoFs() == n, "dofs:" + key, what);
		// the start: the stated fields and their equilibrium
		double ftol = 1e-12 * R.rho0;
		for (size_t k = 0; k < n; k++) {
			near(solver->getDensity()(k), ref.rho(k), 1e-13, "initial-density:" + key, what);
			for (size_t d = 0; d < dim; d++) near(solver->getVelocity().at(d)(k), ref.u[d](k), 1e-13 * R.cs, "initial-velocity:" + key, what);
			for (size_t i = 0; i < ref.L.q; i++) near(solver->getF().at(i)(k), ref.f.at(i)(k), ftol, "initial-equilibrium:" + key, what);
		}
		size_t steps = 0;
		bool bad = false;
		auto compare = [&](CFDSolver<dim>& s) {
			if (bad) return;
			if (steps == 0) ref.collide();
			ref.stream();
			ref.filter(steps + 1);
			ref.collide();
			ref.regularize();
			steps++;
			double size = 0, dm = 0, du = 0, dr = 0;
			for (size_t k = 0; k < n; k++) {
				for (size_t i = 0; i < ref.L.q; i++) {
					double a = s.getF().at(i)(k), b = ref.f.at(i)(k);
					size = std::max(size, std::fabs(b));
					dm = std::max(dm, std::isfinite(a - b) ? std::fabs(a - b) : INFINITY);
				}
				dr = std::max(dr, std::fabs(s.getDensity()(k) - ref.rho(k)));
				for (size_t d = 0; d < dim; d++) du = std::max(du, std::fabs(s.getVelocity().at(d)(k) - ref.u[d](k)) / R.scaling);
			}
			seen_n(n * ref.L.q);
			if (!std::isfinite(size) || size > 50) { metric("runs-blown-up"); bad = true; return; } // unstable set-up
			double tol = 1e-10 * size * steps;
			metric_max("difference", dm / size);
			bad = !check(dm <= tol, "populations:" + key, what + fmt(" step %zu: populations differ by %.3g (of %.3g)", steps, dm, size));
			check(dr <= 100 * tol, "density:" + key, what + fmt(" step %zu: %.3g", steps, dr));
			check(du <= 100 * tol, "velocity:" + key, what + fmt(" step %zu: %.3g", steps, du));
			check(s.getIteration() == steps, "iteration:" + key, what + fmt(" step %zu: iteration %zu", steps, s.getIteration()));
			near(s.getTime(), ref.t, 1e-12 * ref.t, "time:" + key, what + fmt(" step %zu", steps));
			near(s.getTimeStepSize(), ref.dt, 1e-13 * R.dt, "step-size:" + key, what);
			if (!R.emb.on) near(ref.t, steps * R.dt, 1e-12 * ref.t, "reference-time:" + key, what);
			else {
				if (ref.dt < 0.999 * R.dt) metric("shortened steps");
				double unit = R.dt / R.cfl;
				check(s.getTimeStepSize() >= 0.999999 * unit * std::min(R.cfl, R.emb.min_cfl) && s.getTimeStepSize() <= 1.000001 * unit * std::max(R.cfl, R.emb.max_cfl), "step-limits:" + key, what + fmt(": step of cfl %.4g", s.getTimeStepSize() / unit));
			}
		};
		probe<dim>(*solver, compare);
		seen(what);
		if (!run_stable(*solver)) continue;
		check(bad || steps == R.N, "steps:" + key, what + fmt(": %zu steps", steps));
		metric("steps", steps);
		metric("runs-" + key);
		if (R.model.coll == BGK_STANDARD && (R.force || R.model.eq == QUARTIC_EQUILIBRIUM || R.walls >= MOVING)) metric("runs-with-force-quartic-or-moving-walls");
	}
}

// C23: totals over the whole domain
template<size_t dim> static void totals(const CFDSolver<dim>& s, double& mass, std::array<double, dim>& mom) {
	auto& adv = *s.getAdvectionOperator();
	dealii::FEValues<dim> v(adv.getMapping(), *adv.getFe(), *adv.getQuadrature(), dealii::update_values | dealii::update_JxW_values);
	std::vector<dealii::types::global_dof_index> dofs(adv.getFe()->dofs_per_cell);
	mass = 0; mom.fill(0);
	const size_t q = s.getStencil()->getQ();
	for (auto c = adv.getDoFHandler()->begin_active(); c != adv.getDoFHandler()->end(); ++c) {
		if (!c->is_locally_owned()) continue;
		v.reinit(c);
		c->get_dof_indices(dofs);
		for (size_t j = 0; j < dofs.size(); j++) {
			double w = 0;
			for (unsigned k = 0; k < v.n_quadrature_points; k++) w += v.shape_value(j, k) * v.JxW(k);
			for (size_t i = 0; i < q; i++) {
				double x = w * s.getF().at(i)(dofs[j]);
				mass += x;
				for (size_t d = 0; d < dim; d++) mom[d] += x * s.getStencil()->getDirection(i)(d);
			}
		}
	}
}
template<size_t dim> static void conservation() {
	for (size_t rep = 0; rep < scale(12, 250); rep++) {
		Run<dim> R;
		do R = Run<dim>::random(scale(1500, 4000)); while (R.adv != SEDG);
		limit(R);
		if (R.walls == MOVING && rng().flip(0.7)) R.walls = STILL;
		R.N = 4 + rng().below(10);
		choose_integrator_(R.adv, R.integrator, R.deal);
		// distorted cells are integrated with as many points as unknowns, so only straight ones conserve exactly
		bool straight = R.spec.wobble == 0;
		if (!straight) R.spec.wobble = 0, R.finish(), limit(R);
		double vol = 1;
		for (size_t d = 0; d < dim; d++) vol *= R.spec.len[d];
		std::string what = R.str() + fmt(" integrator %d/%d", int(R.integrator), int(R.deal));
		sample(what);
		seen(what);
		CFDSolver<dim> s(R.config(), R.problem(false));
		double m0, m;
		std::array<double, dim> p0, p;
		totals(s, m0, p0);
		size_t k = 0;
		bool blown = false;
		bool implicit = R.integrator != RUNGE_KUTTA_5STAGE && !(R.integrator == OTHER);
		probe<dim>(s, [&](CFDSolver<dim>& s) {
			k++;
			totals(s, m, p);
			double size = std::max(1.0, s.getDensity().linfty_norm());
			if (!std::isfinite(size) || size > 5 * R.rho0) blown = true;
			if (blown) return;
			seen_n(1 + dim);
			double tol = (implicit ? 1e-6 : 1e-11) * m0 * k;
			// moving walls with a flow through them are not closed
			if (R.walls != MOVING) near(m, m0, tol, "mass", what + fmt(" step %zu", k));
			if (R.walls == NONE_)
				for (size_t d = 0; d < dim; d++) {
					// the collision before the first step counts
					double want = p0[d] + (R.force ? R.F[d] * vol * R.dt * (k + 1) : 0);
					near(p[d], want, tol * R.cs * 3, "momentum", what + fmt(" step %zu axis %zu, started with %.6g", k, d, p0[d]));
				}
		});
		run_stable(s);
		metric("steps", k);
		if (blown) metric("runs-blown-up");
		if (R.walls == NONE_) metric("periodic-runs"); else metric("walled-runs");
		if (R.force) metric("forced-runs");
	}
}

// C22: a uniform flow stays what it is
template<size_t dim> static void freestream() {
	for (size_t rep = 0; rep < scale(12, 250); rep++) {
		Run<dim> R = Run<dim>::random(scale(1200, 4000), false, false);
		R.uniform = true;
		R.N = 3 + rng().below(8);
		choose_integrator_(R.adv, R.integrator, R.deal);
		R.filter = rng().flip(0.4) && R.adv == SEDG;
		std::string what = R.str() + fmt(" integrator %d/%d", int(R.integrator), int(R.deal));
		std::string key = R.adv == SEDG ? "sedg" : "sl";
		sample(what);
		seen(what);
		auto cfg = R.config();
		if (R.adv == SEMI_LAGRANGIAN && rng().flip(0.3)) { cfg->setVmultLimiter(true); metric("runs-with-limiter"); }
		if (R.filter) metric("runs-with-filter");
		CFDSolver<dim> s(cfg, R.problem(false));
		size_t k = 0;
		bool implicit = R.integrator == THETA_METHOD;
		probe<dim>(s, [&](CFDSolver<dim>& s) {
			k++;
			double tol = (implicit ? 1e-6 : 1e-10) * k;
			for (size_t i = 0; i < s.getNumberOfDoFs(); i++) {
				near(s.getDensity()(i), R.rho0, tol * R.rho0, "density:" + key, what + fmt(" step %zu", k));
				for (size_t d = 0; d < dim; d++)
					near(s.getVelocity().at(d)(i), R.u0[d], tol * R.cs, "velocity:" + key, what + fmt(" step %zu axis %zu", k, d));
			}
			seen_n(s.getNumberOfDoFs());
		});
		run_stable(s);
		check(k == R.N, "steps", what);
	}
}

// C22: a fluid at rest between resting walls stays at rest, in every corner
template<size_t dim> static void rest() {
	for (size_t rep = 0; rep < scale(6, 120); rep++) {
		Run<dim> R;
		do R = Run<dim>::random(scale(1000, 3000), true, false); while (R.walls == NONE_);
		R.walls = STILL;
		R.uniform = true;
		for (auto& x : R.u0) x = 0;
		R.N = 3 + rng().below(8);
		choose_integrator_(R.adv, R.integrator, R.deal);
		std::string what = R.str() + fmt(" integrator %d/%d", int(R.integrator), int(R.deal));
		std::string key = R.adv == SEDG ? "sedg" : "sl";
		sample(what);
		seen(what);
		CFDSolver<dim> s(R.config(), R.problem(false));
		bool implicit = R.integrator == THETA_METHOD, good = true;
		size_t k = 0;
		probe<dim>(s, [&](CFDSolver<dim>& s) {
			k++;
			if (!good) return;
			double tol = (implicit ? 1e-6 : 1e-10) * k;
			std::map<dealii::types::global_dof_index, dealii::Point<dim> > pos;
			s.getAdvectionOperator()->mapDoFsToSupportPoints(pos);
			for (size_t i = 0; i < s.getNumberOfDoFs(); i++) {
				std::string w = what + fmt(" step %zu", k);
				for (size_t d = 0; d < dim; d++) w += fmt(" %g", pos[i][d]);
				good = near(s.getDensity()(i), R.rho0, tol * R.rho0, "rest-density:" + key, w) && good;
				for (size_t d = 0; d < dim; d++)
					good = near(s.getVelocity().at(d)(i), 0, tol * R.cs, "rest-velocity:" + key, w) && good;
			}
			seen_n(s.getNumberOfDoFs());
		});
		run_stable(s);
		check(k == R.N, "steps", what);
		metric("rest-runs");
	}
}

// C30: the same simulation again, with and without output, gives the same bits
template<size_t dim> static void determinism() {
	for (size_t rep = 0; rep < scale(5, 100); rep++) {
		Run<dim> R = Run<dim>::random(scale(900, 3000));
		limit(R);
		choose_integrator_(R.adv, R.integrator, R.deal);
		std::string what = R.str();
		sample(what);
		std::vector<uint64_t> first;
		for (int variant = 0; variant < 4; variant++) {
			auto cfg = R.config(variant == 0 || variant == 3 ? "" : fresh_dir());
			if (variant == 1) {
				cfg->setOutputSolutionInterval(1 + rng().below(3));
				cfg->setOutputTableInterval(1 + rng().below(3));
				cfg->setOutputCheckpointInterval(1 + rng().below(3));
			} else if (variant == 2) {
				cfg->setOutputTableInterval(1);
				cfg->setOutputGlobalTurbulenceStatistics(true);
			}
			std::vector<uint64_t> h;
			CFDSolver<dim> s(cfg, R.problem(false));
			probe<dim>(s, [&](CFDSolver<dim>& s) { Snap<dim> a; a.take(s); h.push_back(a.hash()); });
			run_stable(s);
			seen(what + fmt(" variant %d", variant));
			seen_n(h.size());
			if (variant == 0) first = h;
			else {
				size_t k = 0;
				while (k < h.size() && k < first.size() && h[k] == first[k]) k++;
				check(h.size() == first.size() && k == h.size(), fmt("variant%d", variant),
						what + fmt(": differs from step %zu (%zu and %zu steps)", k + 1, first.size(), h.size()));
			}
		}
	}
}

// C17: number of steps, files and table lines
template<size_t dim> static void schedule() {
	for (size_t rep = 0; rep < scale(8, 160); rep++) {
		Run<dim> R = Run<dim>::random(scale(500, 1500), true, false);
		limit(R);
		if (R.adv == SEDG) R.cfl = std::min(R.cfl, 0.4);
		R.finish();
		R.N = 1 + rng().below(12);
		std::string dir = fresh_dir();
		auto cfg = R.config(dir);
		size_t is = rng().flip(0.2) ? 200000000 : 1 + rng().below(5), it = 1 + rng().below(5), ic = rng().flip(0.3) ? 200000000 : 1 + rng().below(5);
		cfg->setOutputSolutionInterval(is);
		cfg->setOutputTableInterval(it);
		cfg->setOutputCheckpointInterval(ic);
		size_t expect = R.N;
		double end = 0;
		if (rng().flip(0.5)) {
			end = R.dt * rng().uni(0.2, R.N + 3.0);
			cfg->setSimulationEndTime(end);
			expect = std::min(R.N, size_t(std::ceil(end / R.dt - 1e-9)));
		}
		std::string what = R.str() + fmt(" end time %g = %.4g steps, intervals %zu %zu %zu", end, end / R.dt, is, it, ic);
		sample(what);
		seen(what);
		struct Row { double t, maxu, rmin, rmax; };
		std::map<size_t, Row> obs;
		auto s = boost::make_shared<CFDSolver<dim> >(cfg, R.problem(false));
		double cs2 = R.cs * R.cs;
		auto take = [&](CFDSolver<dim>& s) {
			Row r = { s.getTime(), 0, 1e300, -1e300 };
			for (size_t k = 0; k < s.getNumberOfDoFs(); k++) {
				for (size_t d = 0; d < dim; d++) r.maxu = std::max(r.maxu, std::fabs(s.getVelocity().at(d)(k)));
				r.rmin = std::min(r.rmin, s.getDensity()(k));
				r.rmax = std::max(r.rmax, s.getDensity()(k));
			}
			obs[s.getIteration()] = r;
		};
		take(*s);
		probe<dim>(*s, take);
		if (!run_stable(*s)) continue;
		size_t n = s->getIteration();
		check(n == expect, "steps", what + fmt(": %zu steps instead of %zu", n, expect));
		check(obs.size() == n + 1, "steps-observed", what);
		s.reset();
		// solution files
		std::set<std::string> files = listing(dir), cps = listing(dir + "/checkpoint"), want, wantc;
		for (size_t i = 0; i <= n; i++) {
			if (i == n || (is <= 100000000 && i % is == 0)) { want.insert(fmt("t_0.%zu.vtu", i)); want.insert(fmt("t_0.%zu.pvtu", i)); }
			if (i > 0 && ic <= 100000000 && (i == n || i % ic == 0)) { wantc.insert(fmt("checkpoint_%zu.stat", i)); wantc.insert(fmt("checkpoint_%zu.data", i)); }
		}
		for (auto& f : want) { seen_n(1); check(files.count(f), "solution-missing", what + ": " + f); }
		for (auto& f : files) if (f.find(".vtu") != std::string::npos || f.find(".pvtu") != std::string::npos) check(want.count(f), "solution-unwanted", what + ": " + f);
		for (auto& f : wantc) { seen_n(1); check(cps.count(f), "checkpoint-missing", what + ": " + f); }
		for (auto& f : cps) if (f.find(".stat") != std::string::npos) check(wantc.count(f), "checkpoint-unwanted", what + ": " + f);
		for (const char* f : { "results_table.txt", "natrium.log", "grid.vtk" }) check(files.count(f), "file-missing", what + ": " + f);
		// the table
		auto tab = table(dir + "/results_table.txt");
		std::vector<size_t> lines;
		for (size_t i = 0; i <= n; i++) if (i % it == 0) lines.push_back(i);
		if (!check(tab.size() == lines.size(), "table-lines", what + fmt(": %zu lines instead of %zu", tab.size(), lines.size()))) continue;
		for (size_t l = 0; l < lines.size(); l++) {
			auto& r = tab[l];
			if (!check(r.size() == 13, "table-columns", what + fmt(": %zu columns", r.size()))) break;
			Row o = obs[lines[l]];
			seen_n(5);
			check(r[0] == lines[l], "table-iteration", what + fmt(": %g instead of %zu", r[0], lines[l]));
			near(r[1], o.t, 1e-5 * o.t, "table-time", what);
			near(r[1], lines[l] * R.dt, 1e-5 * (o.t + R.dt * 1e-3), "table-time-is-iteration", what);
			if (lines[l] > 0) { // the first line follows the first collision
				near(r[2], o.maxu, 1e-5 * o.maxu, "table-velocity", what);
				near(r[7], (o.rmax - 1) * cs2, 1e-5 * cs2 * (std::fabs(o.rmax - 1) + 1e-9), "table-max-pressure", what);
				near(r[8], (o.rmin - 1) * cs2, 1e-5 * cs2 * (std::fabs(o.rmin - 1) + 1e-9), "table-min-pressure", what);
			}
		}
		metric("runs");
		if (end > 0) metric("runs-with-end-time");
	}
}

// C17: converged runs stop at the first multiple of 100 iterations whose change is below the threshold
template<size_t dim> static void convergence() {
	for (size_t rep = 0; rep < scale(2, 30); rep++) {
		Run<dim> R;
		do { R = Run<dim>::random(200, true, false); limit(R); } while (R.spec.refine > 1);
		R.adv = SEMI_LAGRANGIAN; R.order = dim == 2 ? 2 : 1; R.points = GAUSS_LOBATTO_POINTS; R.cfl = 0.9; R.integrator = RUNGE_KUTTA_5STAGE;
		if (R.walls == TIME_MOVING) R.walls = MOVING;
		R.spec.wobble = 0;
		R.finish();
		R.N = dim == 2 ? 250 + rng().below(400) : 150 + rng().below(200);
		// the changes of a run that goes on to the end, then thresholds closely around one of them
		std::vector<double> change(1, 0.0);
		double thr = 0;
		size_t near_to = 1 + rng().below((R.N - 1) / 100);
		for (int attempt = 0; attempt < 3; attempt++) {
			auto cfg = R.config();
			cfg->setConvergenceThreshold(thr);
			std::string what = R.str() + fmt(" threshold %.6g", thr);
			sample(what);
			seen(what);
			CFDSolver<dim> s(cfg, R.problem(false));
			std::vector<std::vector<double> > last;
			// iteration 0 is the state after the first collision, whose velocity is the initial one (no force)
			{ Snap<dim> a; a.take(s); last = a.u; }
			bool finite = true;
			std::vector<double> now(1, 0.0);
			probe<dim>(s, [&](CFDSolver<dim>& s) {
				size_t k = s.getIteration();
				seen_n(1);
				if (k % 100) return;
				Snap<dim> a;
				a.take(s);
				finite = finite && std::isfinite(a.fmax());
				double m = 0;
				for (size_t i = 0; i < a.u[0].size(); i++) {
					double q = 0;
					for (size_t d = 0; d < dim; d++) q += std::pow(a.u[d][i] - last[d][i], 2);
					m = std::max(m, std::sqrt(q));
				}
				now.push_back(m);
				last = a.u;
			});
			if (!run_stable(s)) break;
			size_t want = R.N;
			bool clear = finite;
			for (size_t k = 1; 100 * k < R.N && k < now.size(); k++) {
				if (std::fabs(now[k] - thr) < 1e-6 * thr) clear = false;
				if (now[k] < thr) { want = 100 * k; break; }
			}
			if (!clear) { metric("skipped"); break; }
			check(s.getIteration() == want, "converged-stop", what + fmt(": stopped at %zu instead of %zu", s.getIteration(), want));
			metric(want < R.N ? "stopped-early" : "ran-to-the-end");
			if (attempt == 0) change = now;
			if (near_to >= change.size() || !(change[near_to] > 0)) break;
			thr = change[near_to] * (attempt == 0 ? 1 + rng().logu(1e-3, 0.5) : 1 - rng().logu(1e-3, 0.3));
		}
	}
}

void vh_cases(Suite& s) {
	for (int i = 0; i < 8; i++) {
		s.push_back({ fmt("trajectory 2D %d", i), trajectory<2> });
		if (i < 4) s.push_back({ fmt("trajectory 3D %d", i), trajectory<3> });
		s.push_back({ fmt("smoothing 2D %d", i), trajectory<2, true> });
		if (i < 4) s.push_back({ fmt("smoothing 3D %d", i), trajectory<3, true> });
		s.push_back({ fmt("conservation 2D %d", i), conservation<2> });
		if (i < 4) s.push_back({ fmt("conservation 3D %d", i), conservation<3> });
		s.push_back({ fmt("freestream 2D %d", i), freestream<2> });
		if (i < 4) s.push_back({ fmt("freestream 3D %d", i), freestream<3> });
		s.push_back({ fmt("freestream rest 2D %d", i), rest<2> });
		if (i < 4) s.push_back({ fmt("freestream rest 3D %d", i), rest<3> });
		s.push_back({ fmt("determinism 2D %d", i), determinism<2> });
		if (i < 2) s.push_back({ fmt("determinism 3D %d", i), determinism<3> });
		s.push_back({ fmt("schedule 2D %d", i), schedule<2> });
		if (i < 3) s.push_back({ fmt("schedule 3D %d", i), schedule<3> });
		s.push_back({ fmt("convergence 2D %d", i), convergence<2> });
		if (i < 4) s.push_back({ fmt("convergence 3D %d", i), convergence<3> });
	}
}

// Simulations with internal energy (CompressibleCFDSolver): lock-step reference, conservation, uniform
// flow, waves of the compressible equations, files and tables.
#include "waves.h"
#include "thermal.h"
#include "vtu.h"
#include "natrium/collision_advanced/CollisionSelection.h"
#include "natrium/advection/SemiLagrangian.h"
#include "natrium/advection/SEDGMinLee.h"
#include "natrium/timeintegration/RungeKutta5LowStorage.h"
#include "deal.II/fe/fe_values.h"
using namespace vh;
using sim::Model;
using sim::Snap;
using namespace sim;

// ---------------------------------------------------------------- lock-step
template<size_t dim> struct Twin {
	const Run<dim>& R;
	const Gas& G;
	boost::shared_ptr<SolverConfiguration> cfg;
	boost::shared_ptr<box::Problem<dim> > prob;
	boost::shared_ptr<AdvectionOperator<dim> > op;
	Lattice L;
	DistributionFunctions f, g;
	distributed_vector rho, T, mask;
	std::vector<distributed_vector> u;
	std::map<dealii::types::global_dof_index, P<dim> > pos;
	ModalFilter<dim> damping;
	size_t n;
	Twin(const Run<dim>& R_, const Gas& G_, const Heat& H) : R(R_), G(G_), L(*R_.st), f(R_.adv == SEDG), g(R_.adv == SEDG) {
		cfg = R.config();
		G.apply(*cfg);
		prob = thermal_problem<dim>(R, H, true);
		if (R.adv == SEDG) op = boost::make_shared<SEDGMinLee<dim> >(*prob, R.order, cfg->getQuadrature(), R.points, R.st, R.flux == CENTRAL);
		else op = boost::make_shared<SemiLagrangian<dim> >(*prob, R.order, cfg->getQuadrature(), R.points, R.st, R.dt);
		op->setupDoFs();
		op->setDeltaT(R.dt);
		op->reassemble();
		op->mapDoFsToSupportPoints(pos);
		n = op->getNumberOfDoFs();
		for (auto* d : { &f, &g })
			d->reinit(L.q, op->getLocallyOwnedDofs(), op->getLocallyRelevantDofs(), MPI_COMM_WORLD, R.adv == SEDG);
		for (auto* v : { &rho, &T, &mask }) v->reinit(op->getLocallyOwnedDofs(), MPI_COMM_WORLD);
		u.resize(dim);
		for (auto& v : u) v.reinit(op->getLocallyOwnedDofs(), MPI_COMM_WORLD);
		for (size_t k = 0; k < n; k++) {
			rho(k) = R.rho(pos[k]);
			T(k) = temperature<dim>(R, H, pos[k]);
			std::vector<double> v(dim);
			for (size_t j = 0; j < dim; j++) { u[j](k) = R.vel(pos[k], j); v[j] = u[j](k) / R.scaling; }
			for (size_t i = 0; i < L.q; i++) {
				f.at(i)(k) = L.hermite(i, rho(k), v, T(k), 4);
				g.at(i)(k) = f.at(i)(k) * T(k) * (2 * G.cv() - dim);
			}
		}
		f.updateGhosted();
		g.updateGhosted();
		if (R.filter) {
			Damping D = R.damp;
			D.dim = dim; D.p = R.order;
			damping = ModalFilter<dim>(*op->getFe(), D);
		}
	}
	void collide() {
		if (G.pr) { // checked on its own elsewhere
			selectCollision<dim>(*cfg, *prob, f, g, rho, u, T, mask, op->getLocallyOwnedDofs(), R.nu, R.dt, *R.st, false);
			return;
		}
		const double nu = R.nu / (R.dt * L.cs2 * R.scaling * R.scaling);
		for (size_t k = 0; k < n; k++) {
			double r = 0, E = 0, uu = 0;
			std::vector<double> v(dim, 0.0);
			for (size_t i = 0; i < L.q; i++) {
				double x = f.at(i)(k), ee = 0;
				r += x;
				for (size_t d = 0; d < dim; d++) { v[d] += x * L.e[i][d]; ee += L.e[i][d] * L.e[i][d]; }
				E += ee / L.cs2 * x + g.at(i)(k);
			}
			for (auto& x : v) { x /= r; uu += x * x; }
			double t = (E - r * uu / L.cs2) / (2 * r * G.cv());
			double law = G.suth ? std::pow(t / 0.85, 0.7) : 1;
			double om = 1 / (nu * law / (t * r) + 0.5);
			for (size_t i = 0; i < L.q; i++) {
				double eq = L.hermite(i, r, v, t, 4);
				f.at(i)(k) = f.at(i)(k) - om * (f.at(i)(k) - eq);
				g.at(i)(k) = g.at(i)(k) - om * (g.at(i)(k) - eq * t * (2 * G.cv() - dim));
			}
			rho(k) = r; T(k) = t;
			for (size_t d = 0; d < dim; d++) u[d](k) = v[d] * R.scaling;
		}
	}
	void stream(DistributionFunctions& x) {
		auto& A = op->getSystemMatrix();
		if (R.adv == SEMI_LAGRANGIAN) {
			DistributionFunctions old(x);
			A.vmult(x.getFStream(), old.getFStream());
		} else {
			static const double a[5] = { 0, -567301805773.0 / 1357537059087.0, -2404267990393.0 / 2016746695238.0, -3550918686646.0 / 2091501179385.0, -1275806237668.0 / 842570457699.0 };
			static const double b[5] = { 1432997174477.0 / 9575080441755.0, 5161836677717.0 / 13612068292357.0, 1720146321549.0 / 2090206949498.0, 3134564353537.0 / 4481467310338.0, 2277821191437.0 / 14882151754819.0 };
			distributed_block_vector& y = x.getFStream();
			distributed_block_vector d(y), k(y);
			d = 0;
			for (int s = 0; s < 5; s++) {
				A.vmult(k, y);
				k.add(1.0, op->getSystemVector());
				d *= a[s];
				d.add(R.dt, k);
				y.add(b[s], d);
			}
		}
		x.updateGhosted();
	}
	void step(size_t number) {
		stream(f);
		stream(g);
		if (R.filter && number % R.filter_interval == 0)
			for (size_t i = 0; i < L.q; i++) {
				damping.apply(*op->getDoFHandler(), f.at(i));
				damping.apply(*op->getDoFHandler(), g.at(i));
			}
		collide();
	}
};
template<size_t dim> static void lockstep() {
	for (size_t rep = 0; rep < scale(dim == 2 ? 6 : 4, 120); rep++) {
		Run<dim> R = random_thermal<dim>(scale(1500, 4000));
		Gas G = Gas::random(true);
		Heat H = random_heat();
		if (R.adv == SEDG && rng().flip(0.4)) {
			R.filter = true;
			R.damp.is_new = rng().flip(0.3);
			R.damp.by_sum = rng().flip();
			R.damp.alpha = rng().logu(0.1, 40);
			R.damp.s = rng().logu(0.5, 20);
			R.damp.nc = 1 + rng().below(R.order + 1);
			R.filter_interval = 1 + rng().below(3);
			metric("runs-with-filter");
		}
		std::string what = R.str() + G.str() + fmt(" | T %g %g", H.T0, H.amp);
		std::string key = R.adv == SEDG ? "sedg" : "sl";
		sample(what);
		seen(what);
		auto cfg = R.config();
		G.apply(*cfg);
		CompressibleCFDSolver<dim> s(cfg, thermal_problem<dim>(R, H, false));
		Twin<dim> ref(R, G, H);
		const size_t n = ref.n;
		if (!check(s.getNumberOfDoFs() == n, "dofs:" + key, what)) continue;
		for (size_t k = 0; k < n; k++) near(s.getTemperature()(k), ref.T(k), 1e-13, "initial-temperature:" + key, what);
		size_t steps = 0;
		bool bad = false;
		probe<dim>(s, [&](CFDSolver<dim>& q) {
			if (bad) return;
			if (steps == 0) ref.collide();
			ref.step(++steps);
			double size = 0, df = 0, dg = 0, dr = 0, du = 0, dT = 0;
			auto diff = [](double a, double b) { return std::isfinite(a - b) ? std::fabs(a - b) : INFINITY; };
			for (size_t k = 0; k < n; k++) {
				for (size_t i = 0; i < ref.L.q; i++) {
					size = std::max(size, std::max(std::fabs(ref.f.at(i)(k)), std::fabs(ref.g.at(i)(k))));
					df = std::max(df, diff(q.getF().at(i)(k), ref.f.at(i)(k)));
					dg = std::max(dg, diff(s.getG().at(i)(k), ref.g.at(i)(k)));
				}
				dr = std::max(dr, diff(q.getDensity()(k), ref.rho(k)));
				dT = std::max(dT, diff(s.getTemperature()(k), ref.T(k)));
				for (size_t d = 0; d < dim; d++) du = std::max(du, diff(q.getVelocity().at(d)(k), ref.u[d](k)) / R.scaling);
			}
			seen_n(n * ref.L.q);
			if (!std::isfinite(size) || size > 50) { metric("runs-blown-up"); bad = true; return; }
			double tol = 1e-10 * size * steps;
			metric_max("difference", std::max(df, dg) / size);
			bad = !check(df <= tol, "populations:" + key, what + fmt(" step %zu: f differs by %.3g of %.3g", steps, df, size))
				|| !check(dg <= tol, "energy-populations:" + key, what + fmt(" step %zu: g differs by %.3g of %.3g", steps, dg, size));
			check(dr <= 100 * tol, "density:" + key, what + fmt(" step %zu: %.3g", steps, dr));
			check(du <= 100 * tol, "velocity:" + key, what + fmt(" step %zu: %.3g", steps, du));
			check(dT <= 100 * tol, "temperature:" + key, what + fmt(" step %zu: %.3g", steps, dT));
			check(q.getIteration() == steps, "iteration:" + key, what);
			near(q.getTime(), steps * R.dt, 1e-12 * steps * R.dt, "time:" + key, what);
		});
		if (!sim::run_stable(s)) continue;
		check(bad || steps == R.N, "steps:" + key, what + fmt(": %zu steps", steps));
		metric("steps", steps);
		metric("runs-" + key);
	}
}

// ---------------------------------------------------------------- conservation, uniform flow
template<size_t dim> static void closed() {
	for (size_t rep = 0; rep < scale(dim == 2 ? 5 : 3, 100); rep++) {
		Run<dim> R;
		do R = random_thermal<dim>(scale(1500, 4000)); while (R.adv != SEDG);
		R.spec.wobble = 0;
		R.finish();
		Gas G = Gas::random(true);
		Heat H = random_heat();
		std::string what = R.str() + G.str();
		sample(what);
		seen(what);
		auto cfg = R.config();
		G.apply(*cfg);
		CompressibleCFDSolver<dim> s(cfg, thermal_problem<dim>(R, H, false));
		double m0 = 0, E0 = 0, p0[dim];
		size_t k = 0;
		bool blown = false;
		const double cs2 = R.cs * R.cs;
		probe<dim>(s, [&](CFDSolver<dim>& q) {
			k++;
			double m = 0, E = 0, p[dim] = {};
			auto& adv = *q.getAdvectionOperator();
			dealii::FEValues<dim> v(adv.getMapping(), *adv.getFe(), *adv.getQuadrature(), dealii::update_values | dealii::update_JxW_values);
			std::vector<dealii::types::global_dof_index> dofs(adv.getFe()->dofs_per_cell);
			for (auto c = adv.getDoFHandler()->begin_active(); c != adv.getDoFHandler()->end(); ++c) {
				v.reinit(c);
				c->get_dof_indices(dofs);
				for (size_t j = 0; j < dofs.size(); j++) {
					double w = 0;
					for (unsigned x = 0; x < v.n_quadrature_points; x++) w += v.shape_value(j, x) * v.JxW(x);
					for (size_t i = 0; i < q.getStencil()->getQ(); i++) {
						double x = w * q.getF().at(i)(dofs[j]), ee = 0;
						m += x;
						for (size_t d = 0; d < dim; d++) {
							double e = q.getStencil()->getDirection(i)(d);
							p[d] += x * e;
							ee += e * e;
						}
						E += x * ee / cs2 + w * s.getG().at(i)(dofs[j]);
					}
				}
			}
			if (!std::isfinite(m) || !(q.getDensity().linfty_norm() < 5 * R.rho0)) blown = true;
			if (blown) return;
			if (k == 1) { m0 = m; E0 = E; std::copy(p, p + dim, p0); return; }
			seen_n(2 + dim);
			double tol = 1e-11 * m0 * k;
			near(m, m0, tol, "mass", what + fmt(" step %zu", k));
			near(E, E0, 30 * tol, "total-energy", what + fmt(" step %zu", k));
			for (size_t d = 0; d < dim; d++) near(p[d], p0[d], 3 * tol * R.cs, "momentum", what + fmt(" step %zu axis %zu", k, d));
		});
		sim::run_stable(s);
		metric("steps", k);
		if (blown) metric("runs-blown-up");
	}
}
template<size_t dim> static void constant() {
	for (size_t rep = 0; rep < scale(dim == 2 ? 6 : 3, 100); rep++) {
		Run<dim> R = random_thermal<dim>(scale(1200, 4000));
		R.uniform = true;
		Gas G = Gas::random(true);
		Heat H = random_heat();
		std::string what = R.str() + G.str() + fmt(" T %g", H.T0), key = R.adv == SEDG ? "sedg" : "sl";
		sample(what);
		seen(what);
		auto cfg = R.config();
		G.apply(*cfg);
		CompressibleCFDSolver<dim> s(cfg, thermal_problem<dim>(R, H, false));
		size_t k = 0;
		probe<dim>(s, [&](CFDSolver<dim>& q) {
			k++;
			double tol = 1e-10 * k;
			for (size_t i = 0; i < q.getNumberOfDoFs(); i++) {
				near(q.getDensity()(i), R.rho0, tol * R.rho0, "uniform-density:" + key, what + fmt(" step %zu", k));
				near(s.getTemperature()(i), H.T0, 10 * tol, "uniform-temperature:" + key, what + fmt(" step %zu", k));
				for (size_t d = 0; d < dim; d++)
					near(q.getVelocity().at(d)(i), R.u0[d], tol * R.cs, "uniform-velocity:" + key, what + fmt(" step %zu axis %zu", k, d));
			}
			seen_n(q.getNumberOfDoFs());
		});
		sim::run_stable(s);
		check(k == R.N, "uniform-steps", what);
	}
}

// ---------------------------------------------------------------- waves
template<size_t dim> static Run<dim> resolved_thermal(double lo, double hi) {
	Run<dim> R = resolved<dim>(lo, hi);
	do R.model = rng().pick(thermal_models()); while (R.model.dim != dim);
	if (R.adv == SEDG) R.cfl = rng().uni(0.15, 0.25);
	else R.cfl = rng().uni(1, 3);
	R.finish();
	return R;
}
template<size_t dim> struct Wave {
	Run<dim> R;
	Gas G;
	double T0, rho0, phase, A;
	dealii::Tensor<1, dim> k, e;
	double kk, nu, alpha; // wave number, kinematic viscosity and thermal diffusivity of the mean state
	void make(double lo, double hi) {
		R = resolved_thermal<dim>(lo, hi);
		G = Gas::random(false);
		T0 = rng().flip(0.3) ? 1 : rng().uni(0.9, 1.1);
		rho0 = rng().flip() ? 1 : rng().uni(0.7, 1.4);
		wave_vector<dim>(R, k, e);
		phase = rng().uni(0, 6.28);
		kk = k.norm();
		set();
	}
	void set() { R.finish(); nu = R.nu / rho0; alpha = nu / G.prandtl; }
	std::string str() const {
		return R.str() + G.str() + fmt(" | T0 %g rho0 %g k %g %g %g nu %g", T0, rho0, k[0], k[1], dim == 3 ? k[dim - 1] : 0, nu);
	}
	// cfl and steps so that the change of the wave is small in a step and visible in the run
	void steps(double rate, size_t most) {
		while (rate * R.dt * R.tau > 0.01) { R.cfl *= 0.8; double o = nu; set(); rate *= nu / o; }
		while (0.1 / (rate * R.dt) > most && R.tau < 2.2) { R.tau += 0.2; double o = nu; set(); rate *= nu / o; }
		R.N = std::min<double>(most, std::max(50., 0.1 / (rate * R.dt)));
	}
	boost::shared_ptr<box::Problem<dim> > problem(std::function<double(const P<dim>&)> rho, std::function<double(const P<dim>&, unsigned)> u, std::function<double(const P<dim>&)> T) {
		auto p = problem_with<dim>(R, rho, u);
		p->setInitialT(boost::make_shared<box::Fn<dim> >(1, [T](const P<dim>& x, unsigned, double) { return T(x); }));
		return p;
	}
};
// linear theory of a longitudinal wave: relative density and temperature ~ cos, velocity ~ sin
struct Longitudinal { double r, v, th; };
template<size_t dim> static Longitudinal theory(const Wave<dim>& w, Longitudinal y, double t) {
	const double k = w.kk, c2 = w.R.cs * w.R.cs * w.T0, g = w.G.gamma;
	const double nul = w.nu * (3 - g); // all stresses relax alike: bulk viscosity (2/dim - (gamma - 1)) nu
	auto rhs = [&](const Longitudinal& a) {
		return Longitudinal { -k * a.v, c2 * k * (a.r + a.th) - nul * k * k * a.v, -(g - 1) * k * a.v - g * w.alpha * k * k * a.th };
	};
	auto add = [](const Longitudinal& a, double h, const Longitudinal& b) { return Longitudinal { a.r + h * b.r, a.v + h * b.v, a.th + h * b.th }; };
	size_t n = 200 + size_t(50 * t * k * std::sqrt(c2 * g));
	double h = t / n;
	for (size_t i = 0; i < n; i++) {
		auto a = rhs(y), b = rhs(add(y, h / 2, a)), c = rhs(add(y, h / 2, b)), d = rhs(add(y, h, c));
		y = add(add(add(add(y, h / 6, a), h / 3, b), h / 3, c), h / 6, d);
	}
	return y;
}
template<size_t dim> struct Line { Fit rho, T, along, across; }; // fits along the wave at rest or moving with U
template<size_t dim> static Line<dim> look(CompressibleCFDSolver<dim>& s, const Wave<dim>& w, const dealii::Tensor<1, dim>& U) {
	std::map<dealii::types::global_dof_index, P<dim> > pos;
	s.getAdvectionOperator()->mapDoFsToSupportPoints(pos);
	std::vector<double> ph, rho, T, al, ac;
	for (auto& q : pos) {
		double a = w.k * q.second + w.phase, v = 0, x = 0;
		for (size_t d = 0; d < dim; d++) {
			a -= w.k[d] * U[d] * s.getTime();
			v += s.getVelocity().at(d)(q.first) * w.k[d] / w.kk;
			x += s.getVelocity().at(d)(q.first) * w.e[d];
		}
		ph.push_back(a); al.push_back(v); ac.push_back(x);
		rho.push_back(s.getDensity()(q.first) / w.rho0 - 1);
		T.push_back(s.getTemperature()(q.first) / w.T0 - 1);
	}
	return { fit(ph, rho), fit(ph, T), fit(ph, al), fit(ph, ac) };
}
// a diffusing wave moving with the flow: of velocity across (viscosity) or of temperature at constant pressure (conductivity)
template<size_t dim, bool heat> static void diffusion() {
	const std::string name = heat ? "heat" : "shear";
	for (size_t n = 0; n < scale(dim == 2 ? 3 : 1, 30); n++) {
		Wave<dim> w;
		w.make(0.7, 1.4);
		w.A = heat ? 0.01 : 0.02 * w.R.cs;
		double rate = (heat ? w.alpha : w.nu) * w.kk * w.kk;
		w.steps(rate, dim == 2 ? 300 : 60);
		rate = (heat ? w.alpha : w.nu) * w.kk * w.kk;
		dealii::Tensor<1, dim> U;
		for (size_t d = 0; d < dim; d++) U[d] = rng().uni(-1, 1) * 0.05 * w.R.cs;
		std::string what = w.str() + " " + name;
		auto cosine = [=](const P<dim>& x) { return w.A * std::cos(w.k * x + w.phase); };
		auto p = w.problem([=](const P<dim>& x) { return heat ? w.rho0 / (1 + cosine(x)) : w.rho0; },
			[=](const P<dim>& x, unsigned c) { return U[c] + (heat ? -w.alpha * w.k[c] * w.A * std::sin(w.k * x + w.phase) : w.e[c] * cosine(x)); }, // warming gas expands
			[=](const P<dim>& x) { return heat ? w.T0 * (1 + cosine(x)) : w.T0; });
		auto cfg = w.R.config();
		w.G.apply(*cfg);
		CompressibleCFDSolver<dim> s(cfg, p);
		std::vector<double> amp, times, expected;
		probe<dim>(s, [&](CFDSolver<dim>& q) {
			size_t it = q.getIteration();
			if (it != w.R.N / 3 && it != w.R.N) return;
			Line<dim> l = look<dim>(s, w, U);
			Fit f = heat ? l.T : l.across;
			double t = q.getTime();
			double expect = heat ? theory<dim>(w, { -w.A, -w.alpha * w.kk * w.A, w.A }, t).th : w.A * std::exp(-rate * t);
			near(f.c, expect, 0.015 * w.A + w.A * rate * w.R.dt * w.R.tau, name + "/amplitude", fmt("step %zu, decay %g; ", it, rate * t) + what);
			near(f.s, 0, 0.015 * w.A, name + "/phase", what);
			if (heat) {
				Longitudinal y = theory<dim>(w, { -w.A, -w.alpha * w.kk * w.A, w.A }, t);
				near(l.rho.c, y.r, 0.02 * w.A, "heat/density", what);
				near(l.along.s, y.v, 0.02 * w.A * w.R.cs, "heat/velocity", what);
			}
			metric_max(name + "-rest", f.rest / w.A);
			check(f.rest < 0.03 * w.A, name + "/shape", what);
			amp.push_back(f.c); times.push_back(t); expected.push_back(expect);
			seen(what + fmt("%zu", it));
		});
		s.run();
		if (check(amp.size() == 2 && amp[0] > 0 && amp[1] > 0, name + "/steps", what)) {
			double rel = (std::log(amp[0] / amp[1]) - std::log(expected[0] / expected[1])) / (times[1] - times[0]) / rate;
			metric_max(name + "-rate-error", std::fabs(rel));
			check(std::fabs(rel) < 0.025 + rate * w.R.dt * w.R.tau + (w.R.adv == SEDG ? 0 : 3e-5 / (rate * w.R.dt)) + (heat ? 5e-3 : 3e-4) / (rate * (times[1] - times[0])), name + "/rate",
				fmt("measured rate off by %.3g; ", rel) + what);
			seen(what);
			sample(fmt("rate off by %.2g; ", rel) + what);
		}
	}
}
template<size_t dim> static void acoustic() {
	for (size_t n = 0; n < scale(dim == 2 ? 4 : 1, 30); n++) {
		Wave<dim> w;
		w.make(0.6, 1.0);
		w.A = 0.003;
		double c = w.R.cs * std::sqrt(w.G.gamma * w.T0);
		while (c * w.kk * w.R.dt > 0.12) { w.R.cfl *= 0.8; w.set(); }
		double om = c * w.kk;
		w.R.N = std::max(20., std::min(dim == 2 ? 400. : 70., rng().uni(1, 5) / (om * w.R.dt)));
		std::string what = w.str() + fmt(" omega t %g", om * w.R.N * w.R.dt);
		auto cosine = [=](const P<dim>& x) { return w.A * std::cos(w.k * x + w.phase); };
		auto p = w.problem([=](const P<dim>& x) { return w.rho0 * (1 + cosine(x)); }, [](const P<dim>&, unsigned) { return 0.0; },
			[=](const P<dim>& x) { return w.T0 * (1 + (w.G.gamma - 1) * cosine(x)); });
		auto cfg = w.R.config();
		w.G.apply(*cfg);
		CompressibleCFDSolver<dim> s(cfg, p);
		probe<dim>(s, [&](CFDSolver<dim>& q) {
			size_t it = q.getIteration();
			if (it % std::max<size_t>(w.R.N / 4, 1) != 0 && it != w.R.N) return;
			Line<dim> l = look<dim>(s, w, dealii::Tensor<1, dim>());
			double t = q.getTime();
			Longitudinal y = theory<dim>(w, { w.A, 0, (w.G.gamma - 1) * w.A }, t);
			std::string at = fmt("omega t %g; ", om * t);
			metric_max("acoustic-error", std::max(std::fabs(l.rho.c - y.r) / w.A, std::fabs(l.along.s - y.v) / (w.A * c)));
			metric_max("acoustic-temperature-error", std::fabs(l.T.c - y.th) / w.A);
			near(l.rho.c, y.r, 0.03 * w.A, "acoustic/density", at + what);
			near(l.along.s, y.v, 0.03 * w.A * c, "acoustic/velocity", at + what);
			near(l.T.c, y.th, 0.02 * w.A, "acoustic/temperature", at + what);
			near(l.rho.s, 0, 0.02 * w.A, "acoustic/standing", at + what);
			check(l.rho.rest < 0.05 * w.A, "acoustic/shape", what);
			seen(what + fmt("%zu", it));
		});
		s.run();
		sample(what);
	}
}

// ---------------------------------------------------------------- files and tables
static void digits(double got, double want, double size, const std::string& key, const std::string& what) {
	near(got, want, 2e-5 * (std::fabs(want) + 1e-6 * size), key, what); // tables have six digits
	seen_n(1);
}
template<size_t dim> static void files() {
	for (size_t rep = 0; rep < scale(dim == 2 ? 4 : 2, 60); rep++) {
		Run<dim> R = random_thermal<dim>(scale(1000, 3000));
		R.N = 2 + rng().below(8);
		Gas G = Gas::random(true);
		Heat H = random_heat();
		std::string dir = sim::fresh_dir();
		auto cfg = R.config(dir);
		G.apply(*cfg);
		size_t ti = 1 + rng().below(3), ci = 1 + rng().below(5), si = 1 + rng().below(6);
		cfg->setOutputTableInterval(ti);
		cfg->setOutputCheckpointInterval(ci);
		cfg->setOutputSolutionInterval(si);
		cfg->setOutputCompressibleTurbulenceStatistics(true);
		std::string what = R.str() + G.str() + fmt(" table %zu checkpoints %zu files %zu", ti, ci, si);
		sample(what);
		seen(what);
		CompressibleCFDSolver<dim> s(cfg, thermal_problem<dim>(R, H, false));
		auto adv = s.getAdvectionOperator();
		struct E { double t, dil = 0, sol = 0, mach = 0, heat = 0; };
		std::map<size_t, E> want;
		std::vector<double> T;
		bool blown = false;
		probe<dim>(s, [&](CFDSolver<dim>& q) {
			E e;
			e.t = q.getTime();
			dealii::FEValues<dim> v(adv->getMapping(), *adv->getFe(), *adv->getQuadrature(), dealii::update_values | dealii::update_gradients | dealii::update_JxW_values);
			std::vector<dealii::types::global_dof_index> dofs(adv->getFe()->dofs_per_cell);
			for (auto c = adv->getDoFHandler()->begin_active(); c != adv->getDoFHandler()->end(); ++c) {
				v.reinit(c);
				c->get_dof_indices(dofs);
				for (unsigned x = 0; x < v.n_quadrature_points; x++) {
					double th = 0, u[3] = {}, D[3][3] = {};
					for (size_t j = 0; j < dofs.size(); j++) {
						th += v.shape_value(j, x) * s.getTemperature()(dofs[j]);
						for (size_t d = 0; d < dim; d++) {
							double w = q.getVelocity().at(d)(dofs[j]);
							u[d] += v.shape_value(j, x) * w;
							for (size_t a = 0; a < dim; a++) D[d][a] += v.shape_grad(j, x)[a] * w;
						}
					}
					double law = 1.402 * std::pow(th, 1.5) / (th + 0.40417), div = D[0][0] + D[1][1] + D[2][2];
					double rot = std::pow(D[2][1] - D[1][2], 2) + std::pow(D[0][2] - D[2][0], 2) + std::pow(D[1][0] - D[0][1], 2);
					e.dil += law * div * div * v.JxW(x);
					e.sol += law * rot * v.JxW(x);
					e.heat += th * v.JxW(x);
					e.mach = std::max(e.mach, std::sqrt(u[0] * u[0] + u[1] * u[1] + u[2] * u[2]) / (R.cs * std::sqrt(G.gamma * th)));
				}
			}
			want[q.getIteration()] = e;
			T.assign(q.getNumberOfDoFs(), 0);
			for (size_t k = 0; k < T.size(); k++) { T[k] = s.getTemperature()(k); if (!(T[k] > 0.1 && T[k] < 10)) blown = true; }
		});
		if (!sim::run_stable(s) || blown) { metric("runs-blown-up"); continue; }
		double gs = std::pow(R.cs / R.dx, 2);
		for (size_t d = 0; d < dim; d++) gs *= R.spec.len[d];
		auto rows = sim::table(dir + "/compressible_turbulence_table.txt");
		check(rows.size() == R.N / ti, "table/rows", what + fmt(": %zu rows", rows.size()));
		for (size_t k = 0; k < rows.size(); k++) {
			auto& r = rows[k];
			size_t i = (k + 1) * ti;
			if (!check(r.size() == 6 && size_t(r[0]) == i && want.count(i), "table/iteration", what)) break;
			const E& e = want[i];
			std::string w = what + fmt(" iteration %zu", i);
			digits(r[1], e.t, 0, "table/time", w);
			digits(r[2], e.dil, gs, "table/dilatation", w);
			digits(r[3], e.sol, gs, "table/solenoidal", w);
			digits(r[4], e.mach, 1e-3, "table/mach", w);
			digits(r[5], e.heat, 0, "table/energy", w);
		}
		auto in = sim::listing(dir), cps = sim::listing(dir + "/checkpoint");
		for (size_t i = 0; i <= R.N; i++) {
			bool f = i % si == 0 || i == R.N, c = i > 0 && (i % ci == 0 || i == R.N);
			check(in.count(fmt("t_0.%zu.vtu", i)) == f, "files/solution", what + fmt(" iteration %zu", i));
			check(cps.count(fmt("checkpoint_%zu.data", i)) == c && cps.count(fmt("checkpointG_%zu.data", i)) == c, "files/checkpoint", what + fmt(" iteration %zu of %zu", i, R.N));
			seen_n(2);
		}
		check(sim::table(dir + "/results_table.txt").size() == R.N / ti + 1, "table/results rows", what);
		vtu::Fields F = vtu::read(dir + fmt("/t_0.%zu.vtu", R.N));
		if (!check(F.count("T") && F.count("points"), "files/temperature missing", what)) continue;
		size_t found = 0;
		std::map<dealii::types::global_dof_index, P<dim> > pos;
		adv->mapDoFsToSupportPoints(pos);
		auto& pts = F["points"];
		for (size_t k = 0; k < pts.size() / 3; k++) { // nodes of the grid that are points of the file
			double best = 1e9;
			for (auto& p : pos) {
				double d2 = 0;
				for (size_t d = 0; d < dim; d++) d2 += std::pow(pts[3 * k + d] - p.second[d], 2);
				if (d2 < 1e-10 * R.dx * R.dx) best = std::min(best, std::fabs(F["T"].at(k) - T[p.first])); // one of the cells meeting here
			}
			if (best == 1e9) continue;
			found++;
			near(best, 0, 1e-5, "files/temperature", what);
			seen_n(1);
		}
		check(found > 0, "files/temperature points", what);
		metric("runs-with-files");
	}
}

// a restarted run goes on as if never interrupted
template<size_t dim> static void again() {
	for (size_t rep = 0; rep < scale(dim == 2 ? 2 : 1, 20); rep++) {
		Run<dim> R = random_thermal<dim>(scale(600, 2000));
		R.N = 6;
		Gas G = Gas::random(false);
		size_t from = rng().below(2) ? 3 : 1; // the first iteration, too
		Heat H = random_heat();
		std::string dir = sim::fresh_dir(), what = R.str() + G.str();
		sample("restart: " + what);
		std::map<size_t, Snap<dim> > trace;
		for (size_t part = 0; part < 2; part++) {
			auto cfg = R.config(dir);
			G.apply(*cfg);
			cfg->setOutputCheckpointInterval(from);
			if (part) cfg->setRestartAtIteration(from);
			CompressibleCFDSolver<dim> s(cfg, thermal_problem<dim>(R, H, false));
			bool same = true;
			probe<dim>(s, [&](CFDSolver<dim>& q) {
				Snap<dim> x;
				x.take(q);
				if (part == 0) { trace[x.it] = x; return; }
				seen_n(1);
				if (!trace.count(x.it) || sim::fdiff(trace[x.it], x) > 1e-10) same = false;
			});
			if (!sim::run_stable(s)) { metric("runs-given-up"); break; }
			if (part) check(same, "compressible-restart", what + ": populations after the restart differ from the uninterrupted run");
			seen(what);
		}
	}
}

void vh_cases(Suite& s) {
	s.push_back({ "restarted/2d", again<2> });
	s.push_back({ "restarted/3d", again<3> });
	s.push_back({ "loop/files2d", files<2> });
	s.push_back({ "loop/files3d", files<3> });
	s.push_back({ "loop/lockstep2d", lockstep<2> });
	s.push_back({ "loop/lockstep3d", lockstep<3> });
	s.push_back({ "loop/closed2d", closed<2> });
	s.push_back({ "loop/closed3d", closed<3> });
	s.push_back({ "loop/constant2d", constant<2> });
	s.push_back({ "loop/constant3d", constant<3> });
	s.push_back({ "waves/shear2d", diffusion<2, false> });
	s.push_back({ "waves/shear3d", diffusion<3, false> });
	s.push_back({ "waves/heat2d", diffusion<2, true> });
	s.push_back({ "waves/heat3d", diffusion<3, true> });
	s.push_back({ "waves/acoustic2d", acoustic<2> });
	s.push_back({ "waves/acoustic3d", acoustic<3> });
}

// What the solver reports (tables, statistics, solution files, error norms) against quantities
// integrated by the monitor from the fields of the same iteration.
#include "run.h"
#include "feoracle.h"
#include "vtu.h"
#include "natrium/solver/PhysicalProperties.h"
#include "natrium/solver/BenchmarkCFDSolver.h"
#include "natrium/solver/BenchmarkCompressibleCFDSolver.h"
#include "natrium/problemdescription/Benchmark.h"
#include "natrium/advection/SEDGMinLee.h"
#include "deal.II/fe/fe_values.h"

using namespace natrium;
using namespace vh;
using sim::Run;
using sim::Snap;
using sim::probe;

typedef std::vector<double> V;

// a random run that is known to stay calm for some steps
template<size_t dim> static Run<dim> calm(size_t dofs, bool walls = true) {
	Run<dim> R = Run<dim>::random(dofs, walls, true);
	R.tau = std::max(R.tau, 0.6);
	if (R.adv == SEDG) R.cfl = std::min(R.cfl, 0.4);
	R.finish();
	R.random_fields();
	return R;
}

// integrals of a moment
template<size_t dim> struct Integrals {
	double volume = 0, mass = 0, kinE = 0, ens = 0, ens2 = 0, entropy = 0, meanUx = 0, maxU = 0, maxP = 0, minP = 0;
	bool entropy_defined = true;
	size_t it = 0;
	double t = 0;
	// of GlobalTurbulenceStats, by name
	std::map<std::string, double> global;
};
static const char* AX[] = { "x", "y", "z" };

template<size_t dim> static Integrals<dim> integrals(AdvectionOperator<dim>& adv, const Snap<dim>& s, bool global = false) {
	Integrals<dim> r;
	r.it = s.it; r.t = s.t;
	const dealii::FiniteElement<dim>& fe = *adv.getFe();
	const dealii::Quadrature<dim>& quad = *adv.getQuadrature();
	dealii::FEValues<dim> v(adv.getMapping(), fe, quad, dealii::update_values | dealii::update_gradients | dealii::update_JxW_values);
	std::vector<dealii::types::global_dof_index> dofs(fe.dofs_per_cell);
	const auto& w = adv.getStencil()->getWeights();
	const double cs2 = adv.getStencil()->getSpeedOfSoundSquare();
	const size_t n = s.rho.size();
	V ke(n), en(n);
	for (size_t i = 0; i < n; i++) {
		double u2 = 0;
		for (size_t d = 0; d < dim; d++) u2 += s.u[d][i] * s.u[d][i];
		ke[i] = 0.5 * s.rho[i] * u2;
		for (size_t d = 0; d < dim; d++) r.maxU = std::max(r.maxU, std::fabs(s.u[d][i])); // maximum norm
		double p = (s.rho[i] - 1) * cs2;
		if (i == 0) r.maxP = r.minP = p;
		r.maxP = std::max(r.maxP, p);
		r.minP = std::min(r.minP, p);
		for (size_t a = 0; a < w.size(); a++) {
			if (!(s.f[a][i] > 0)) r.entropy_defined = false;
			en[i] -= s.f[a][i] * std::log(s.f[a][i] / w[a]);
		}
	}
	for (auto c = adv.getDoFHandler()->begin_active(); c != adv.getDoFHandler()->end(); ++c) {
		v.reinit(c);
		c->get_dof_indices(dofs);
		for (unsigned q = 0; q < quad.size(); q++) {
			double J = v.JxW(q), rho = 0, k = 0, e = 0;
			std::array<double, dim> u, drho;
			u.fill(0); drho.fill(0);
			double du[dim][dim] = {};
			for (size_t j = 0; j < dofs.size(); j++) {
				double phi = v.shape_value(j, q);
				rho += phi * s.rho[dofs[j]];
				k += phi * ke[dofs[j]];
				e += phi * en[dofs[j]];
				for (size_t d = 0; d < dim; d++) {
					u[d] += phi * s.u[d][dofs[j]];
					drho[d] += v.shape_grad(j, q)[d] * s.rho[dofs[j]];
					for (size_t x = 0; x < dim; x++) du[d][x] += v.shape_grad(j, q)[x] * s.u[d][dofs[j]];
				}
			}
			r.volume += J; r.mass += rho * J; r.kinE += k * J; r.entropy += e * J; r.meanUx += u[0] * J;
			double m = 0;
			if (dim == 2) m = std::pow(du[1][0] - du[0][1], 2);
			else for (size_t a = 0; a < dim; a++) for (size_t b = 0; b < dim; b++) m += du[a][b] * du[a][b];
			r.ens += m * J; r.ens2 += m * m * J;
			if (!global) continue;
			std::vector<std::pair<std::string, double> > o;
			o.push_back({ "rho", rho });
			for (size_t d = 0; d < dim; d++) o.push_back({ std::string("drho/d") + AX[d], drho[d] });
			for (size_t d = 0; d < dim; d++) o.push_back({ std::string("u") + AX[d], u[d] });
			for (size_t d = 0; d < dim; d++) for (size_t x = 0; x < dim; x++) o.push_back({ std::string("du") + AX[d] + "/d" + AX[x], du[d][x] });
			for (auto& a : o) {
				r.global["< " + a.first + " >"] += a.second * J;
				r.global["< " + a.first + "^3 >"] += std::pow(a.second, 3) * J;
				r.global["< " + a.first + "^4 >"] += std::pow(a.second, 4) * J;
				for (auto& b : o) r.global["< " + a.first + " " + b.first + " >"] += a.second * b.second * J;
			}
			double e1 = 0, e2 = 0;
			for (size_t d = 0; d < dim; d++) e1 += 0.5 * u[d] * u[d];
			for (size_t a = 0; a < dim; a++) for (size_t b = 0; b < a; b++) e2 += std::pow(du[a][b] - du[b][a], 2);
			r.global["<energy>"] += e1 * J; r.global["<enstrophy>"] += e2 * J;
			r.global["<energy^2>"] += e1 * e1 * J; r.global["<enstrophy^2>"] += e2 * e2 * J;
		}
	}
	r.meanUx /= r.volume;
	return r;
}

// printed with six digits
static bool digits(double got, double want, double scale, const std::string& key, const std::string& what) {
	seen_n(1);
	return near(got, want, 2e-5 * std::fabs(want) + 1e-9 * scale, key, what);
}

// ---------------------------------------------------------------- results, turbulence and solution files
template<size_t dim> static void solution_file(const std::string& dir, CFDSolver<dim>& s, const Snap<dim>& x, size_t order, const std::vector<V>& mean, const std::string& what) {
	vtu::Fields F = vtu::read(dir + fmt("/t_0.%zu.vtu", x.it));
	auto adv = s.getAdvectionOperator();
	size_t sub = order == 1 ? 1 : order + 1, k = 0;
	const V& pts = F["points"];
	const char* names[] = { "ux", "uy", "uz" };
	double h = 0;
	for (double p : pts) h = std::max(h, std::fabs(p));
	std::vector<dealii::types::global_dof_index> dofs(adv->getFe()->dofs_per_cell);
	for (auto c = adv->getDoFHandler()->begin_active(); c != adv->getDoFHandler()->end(); ++c) {
		c->get_dof_indices(dofs);
		std::array<size_t, dim> i;
		i.fill(0);
		for (;;) {
			dealii::Point<dim> q;
			for (size_t d = 0; d < dim; d++) q[d] = double(i[d]) / sub;
			dealii::Point<dim> p = adv->getMapping().transform_unit_to_real_cell(c, q);
			if (3 * k + 2 >= pts.size()) { violation("file:points", what); return; }
			for (size_t d = 0; d < dim; d++)
				if (!near(pts[3 * k + d], p[d], 1e-6 * h, "file:points", what)) return;
			double rho = 0;
			std::array<double, dim> u;
			u.fill(0);
			for (size_t j = 0; j < dofs.size(); j++) {
				double phi = adv->getFe()->shape_value(j, q);
				rho += phi * x.rho[dofs[j]];
				for (size_t d = 0; d < dim; d++) u[d] += phi * x.u[d][dofs[j]];
			}
			if (F["rho"].size() <= k) { violation("file:density missing", what); return; }
			near(F["rho"][k], rho, 1e-6 * std::fabs(rho), "file:density", what);
			for (size_t d = 0; d < dim; d++) {
				if (F[names[d]].size() <= k) { violation("file:velocity missing", what); return; }
				near(F[names[d]][k], u[d], 1e-6 * (std::fabs(u[d]) + 0.01 * s.getStencil()->getScaling()), "file:velocity", what);
			}
			seen_n(1 + dim);
			for (size_t d = 0; d < mean.size(); d++) { // time average
				std::string name = names[d] + std::string("_average");
				if (F[name].size() <= k) { violation("file:average missing", what); return; }
				double m = 0;
				for (size_t j = 0; j < dofs.size(); j++) m += adv->getFe()->shape_value(j, q) * mean[d][dofs[j]];
				near(F[name][k], m, 1e-6 * (std::fabs(m) + 0.01 * s.getStencil()->getScaling()), "file:time average", what);
				seen_n(1);
			}
			k++;
			size_t d = 0;
			while (d < dim && ++i[d] > sub) i[d++] = 0;
			if (d == dim) break;
		}
	}
	check(3 * k == pts.size(), "file:extra points", what);
	metric("solution files read");
}

template<size_t dim> static void tables() {
	Run<dim> R = calm<dim>(scale(1500, 4000));
	R.N = 2 + rng().below(scale(8, 20));
	bool residuals = dim == 2 && rng().flip(0.15);
	if (residuals) { // long run on a small mesh
		R.spec.refine = 0; R.order = 1; R.N = 300 + rng().below(2) * 50;
		for (size_t d = 0; d < dim; d++) R.spec.reps[d] = 2;
		R.spec.wobble = 0;
		R.finish(); R.random_fields();
	}
	std::string dir = sim::fresh_dir();
	auto cfg = R.config(dir);
	size_t ti = residuals ? 50 : 1 + rng().below(3), si = residuals ? 100 : 1 + rng().below(4);
	cfg->setOutputTableInterval(ti);
	cfg->setOutputSolutionInterval(si);
	bool global = rng().flip(0.6);
	if (global) cfg->setOutputGlobalTurbulenceStatistics(true);
	bool turb = rng().flip(0.6) && R.spec.wobble == 0 && (R.adv == SEDG || R.points == GAUSS_LOBATTO_POINTS);
	size_t normal = rng().below(dim);
	if (R.spec.shear != 0 && normal == 0) normal = 1;
	std::vector<double> planes;
	if (turb) {
		// planes through the nodes of the cells
		auto p = R.problem(true);
		SEDGMinLee<dim> a(*p, R.order, QGAUSS_LOBATTO, R.points, R.st, false);
		a.setupDoFs();
		map<dealii::types::global_dof_index, dealii::Point<dim> > pos;
		a.mapDoFsToSupportPoints(pos);
		std::vector<double> all;
		for (auto& x : pos) all.push_back(x.second[normal]);
		for (size_t k = 0, n = 1 + rng().below(3); k < n; k++) planes.push_back(std::round(rng().pick(all) * 1e5) / 1e5);
		cfg->setOutputTurbulenceStatistics(true);
		cfg->setWallNormalDirection(normal);
		cfg->setWallNormalCoordinates(planes);
	}
	std::string what = R.str() + fmt(" table %zu files %zu global %d turbulence %d", ti, si, global, turb);
	sample(what);
	seen(what);
	CFDSolver<dim> s(cfg, R.problem(false));
	auto adv = s.getAdvectionOperator();
	std::map<size_t, Integrals<dim> > I;
	std::map<size_t, V> plane_values;
	std::map<size_t, Snap<dim> > at100;
	std::map<dealii::types::global_dof_index, dealii::Point<dim> > pos;
	adv->mapDoFsToSupportPoints(pos);
	bool calm = true;
	std::map<size_t, double> averages_n;
	Snap<dim> last;
	std::vector<V> mean; // sum of velocities over all iterations
	{ Snap<dim> z; z.take(s); I[0] = integrals<dim>(*adv, z); at100[0] = z; if (turb && !R.force) mean = z.u; }
	probe<dim>(s, [&](CFDSolver<dim>& s) {
		Snap<dim> x;
		x.take(s);
		if (x.fmax() > 30) { calm = false; throw sim::Crash(); }
		last = x;
		for (size_t d = 0; d < mean.size(); d++) for (size_t i = 0; i < x.u[d].size(); i++) mean[d][i] += x.u[d][i];
		if (x.it % 100 == 0) at100[x.it] = x;
		if (x.it % ti) return;
		auto& r = I[x.it] = integrals<dim>(*adv, x, global);
		for (auto& p : planes)
			for (int second = 0; second < 2; second++)
				for (size_t d = 0; d < dim; d++) {
					double sum = 0, sq = 0;
					size_t n = 0;
					for (auto& q : pos) if (std::fabs(q.second[normal] - p) < 1e-4 * R.dx) { n++; sum += x.u[d][q.first]; }
					for (auto& q : pos) if (std::fabs(q.second[normal] - p) < 1e-4 * R.dx) sq += std::pow(x.u[d][q.first] - sum / n, 2);
					plane_values[x.it].push_back(second ? std::sqrt(sq / n) : sum / n);
				}
		// the functions themselves, to rounding errors
		typedef PhysicalProperties<dim> PP;
		double tol = 1e-9, e2 = 0, lo = 0;
		near(PP::mass(s.getDensity(), adv), r.mass, tol * r.mass, "mass", what);
		near(PP::kineticEnergy(s.getVelocity(), s.getDensity(), adv), r.kinE, tol * r.kinE, "kinetic energy", what);
		double g2 = std::pow(r.maxU / R.dx, 2); // round-off of vanishing gradients
		near(PP::enstrophy(s.getVelocity(), adv, &e2), r.ens, tol * (r.ens + 1e-9 * g2 * r.volume), "enstrophy", what);
		near(e2, r.ens2, tol * (r.ens2 + 1e-9 * g2 * g2 * r.volume), "enstrophy squared", what);
		near(PP::meanVelocityX(s.getVelocity().at(0), adv), r.meanUx, tol * r.maxU, "mean velocity", what);
		if (r.entropy_defined) near(PP::entropy(s.getF(), adv), r.entropy, 1e-9 * (std::fabs(r.entropy) + r.mass), "entropy", what);
		double cs = s.getStencil()->getSpeedOfSound();
		near(PP::maximalPressure(s.getDensity(), cs, lo), r.maxP, tol * cs * cs, "maximal pressure", what);
		near(lo, r.minP, tol * cs * cs, "minimal pressure", what);
		near(s.getMaxVelocityNorm(), r.maxU, tol * r.maxU, "maximal velocity", what);
		seen_n(9);
	});
	try { if (!sim::run_stable(s)) return; } catch (sim::Crash&) { metric("runs-blown-up"); return; }
	// results table
	auto T = sim::table(dir + "/results_table.txt");
	check(T.size() == R.N / ti + 1, "table:rows", what + fmt(" %zu rows", T.size()));
	const double cs2 = R.cs * R.cs;
	for (auto& row : T) {
		if (!check(row.size() == 13, "table:columns", what)) break;
		size_t i = size_t(row[0]);
		if (!check(I.count(i), "table:iteration", what + fmt(" row %zu", i))) continue;
		auto& r = I[i];
		std::string w = what + fmt(" iteration %zu", i);
		digits(row[1], i * s.getTimeStepSize(), 0, "table:time", w);
		digits(row[3], r.mass, 0, "table:mass", w);
		if (i == 0) continue; // velocity and populations are those after the first collision
		digits(row[2], r.maxU, 0, "table:maxU", w);
		digits(row[4], r.kinE, 0, "table:kinE", w);
		digits(row[5], r.ens, 1e-9 * std::pow(r.maxU / R.dx, 2) * r.volume, "table:enstrophy", w);
		if (r.entropy_defined) digits(row[6], r.entropy, r.mass, "table:entropy", w);
		digits(row[7], r.maxP, cs2, "table:maxP", w);
		digits(row[8], r.minP, cs2, "table:minP", w);
		digits(row[11], r.meanUx, r.maxU, "table:mean ux", w);
		digits(row[12], r.ens2, 1e-9 * std::pow(r.maxU / R.dx, 4) * r.volume, "table:enstrophy squared", w);
		size_t h = i / 100 * 100;
		if (residuals && h >= 100) { // of the last hundred
			auto& a = at100[h - 100]; auto& b = at100[h];
			if (h == i && i < R.N) { // printed after the check of this iteration
			}
			if (h - 100 == 0) { metric("residual rows against the start"); }
			double dr = sim::vdiff(a.rho, b.rho), du = 0;
			for (size_t k = 0; k < a.rho.size(); k++) {
				double q = 0;
				for (size_t d = 0; d < dim; d++) q += std::pow(a.u[d][k] - b.u[d][k], 2);
				du = std::max(du, std::sqrt(q));
			}
			if (i == R.N && h == i) continue; // the check of the last iteration comes first or not at all
			if (h - 100 == 0 && R.force) continue;
			digits(row[9], dr, 1e-3, "table:residual density", w);
			digits(row[10], du, 1e-3 * R.cs, "table:residual velocity", w);
			metric("residual rows");
		}
	}
	if (turb) {
		auto P = sim::table(dir + "/turbulence_table.txt");
		check(P.size() == R.N / ti + 1, "turbulence:rows", what);
		for (auto& row : P) {
			size_t i = size_t(row.at(0)), n = planes.size();
			if (i == 0 || !check(row.size() == 2 + 2 * dim * n && plane_values.count(i), "turbulence:columns", what)) continue;
			for (size_t p = 0; p < n; p++)
				for (size_t d = 0; d < dim; d++) {
					digits(row[2 + p * dim + d], plane_values[i][2 * p * dim + d], R.cs, "turbulence:average", what);
					digits(row[2 + (n + p) * dim + d], plane_values[i][(2 * p + 1) * dim + d], R.cs, "turbulence:rms", what);
				}
			metric("turbulence rows");
		}
	}
	if (global) {
		std::map<size_t, std::string> legend;
		std::ifstream in(dir + "/global_turbulence_table.legend");
		std::string l;
		while (std::getline(in, l)) {
			std::istringstream ss(l);
			size_t k; std::string rest;
			ss >> k; std::getline(ss, rest);
			while (!rest.empty() && rest[0] == ' ') rest.erase(0, 1);
			check(!legend.count(k), "global:legend", what + " column twice: " + rest);
			legend[k] = rest;
		}
		auto G = sim::table(dir + "/global_turbulence_table.txt");
		check(G.size() == R.N / ti, "global:rows", what);
		for (auto& row : G) {
			check(row.size() == legend.size(), "global:columns", what + fmt(" %zu columns, %zu in the legend", row.size(), legend.size()));
			size_t i = size_t(row.at(0));
			if (!check(I.count(i), "global:iteration", what)) continue;
			auto& g = I[i].global;
			for (auto& e : legend) {
				if (e.first > row.size()) continue;
				double got = row[e.first - 1];
				if (e.second == "iteration") check(got == i, "global:iteration column", what);
				else if (e.second == "time") digits(got, I[i].t, 0, "global:time column", what);
				else if (!check(g.count(e.second), "global:name", what + " " + e.second)) break;
				else digits(got, g[e.second], 1e-3 * I[i].maxU, "global:" + e.second, what);
			}
			metric("global statistics rows");
		}
	}
	for (size_t i = 0; i <= R.N; i++)
		if (i % si == 0 || i == R.N) {
			bool there = sim::listing(dir).count(fmt("t_0.%zu.vtu", i));
			check(there, "file:missing", what + fmt(" iteration %zu", i));
		}
	for (auto& m : mean) for (double& v : m) v /= R.N + 1;
	if (last.it == R.N) solution_file<dim>(dir, s, last, R.order, mean, what);
	if (R.adv == SEDG) metric("SEDG runs"); else metric("SL runs");
}

// ---------------------------------------------------------------- benchmarks: errors against the analytic solution
template<size_t dim, class Base> class Bench: public box::Problem<dim, Base> {
public:
	Bench(const box::Spec<dim>& s, typename box::Problem<dim, Base>::WallMaker w, bool refined)
			: box::Problem<dim, Base>(s, w, refined) {}
	using Benchmark<dim>::setAnalyticRho;
	using Benchmark<dim>::setAnalyticU;
};
template<size_t dim, bool thermal> static void errors() {
	typedef Bench<dim, typename std::conditional<thermal, CompressibleBenchmark<dim>, Benchmark<dim> >::type> Problem;
	typedef typename std::conditional<thermal, BenchmarkCompressibleCFDSolver<dim>, BenchmarkCFDSolver<dim> >::type Solver;
	Run<dim> R = calm<dim>(scale(thermal ? 500 : 1200, 4000));
	if (thermal) {
		while (R.walls != sim::NONE_ || R.force) R = calm<dim>(scale(500, 4000));
		if (dim == 2) R.model = { 2, Stencil_D2Q25H, BGK_STANDARD, QUARTIC_EQUILIBRIUM, "D2Q25H energy" };
		else R.model = { 3, Stencil_D3Q45, BGK_STANDARD, QUARTIC_EQUILIBRIUM, "D3Q45 energy" };
		R.cfl = std::min(R.cfl, 0.3);
		R.tau = std::max(R.tau, 0.6);
		R.finish();
		R.random_fields();
	}
	R.N = 2 + rng().below(10);
	std::string dir = sim::fresh_dir();
	auto cfg = R.config(dir);
	size_t ti = 1 + rng().below(3), ci = 1 + rng().below(5), si = 1 + rng().below(6);
	cfg->setOutputTableInterval(ti);
	cfg->setOutputCheckpointInterval(ci);
	cfg->setOutputSolutionInterval(si);
	std::string what = R.str() + fmt(" table %zu checkpoints %zu", ti, ci);
	sample(what);
	seen(what);
	auto prob = R.template problem_of<Problem>(false);
	// analytic solution: the initial fields, modulated in time, so that start and analytic solution agree
	double w1 = rng().uni(0.1, 2) / R.dt, w2 = rng().uni(0.1, 2) / R.dt;
	auto rho = [R, w1](const dealii::Point<dim>& x, double t) { return R.rho(x) + 0.02 * std::sin(w1 * t) * std::cos(x[0] + x[dim - 1]); };
	auto vel = [R, w2](const dealii::Point<dim>& x, size_t c, double t) { return R.vel(x, c) * (1 + 0.5 * std::sin(w2 * t + 0.3 * c) - 0.5 * std::sin(0.3 * c)); };
	prob->setAnalyticRho(boost::make_shared<box::Fn<dim> >(1, [rho](const dealii::Point<dim>& x, unsigned, double t) { return rho(x, t); }));
	prob->setAnalyticU(boost::make_shared<box::Fn<dim> >(dim, [vel](const dealii::Point<dim>& x, unsigned c, double t) { return vel(x, c, t); }));
	Solver s(cfg, prob);
	auto adv = s.getAdvectionOperator();
	std::map<dealii::types::global_dof_index, dealii::Point<dim> > pos;
	adv->mapDoFsToSupportPoints(pos);
	struct E { double t, maxU, eu, er, l2u, l2r; };
	std::map<size_t, E> want;
	auto measure = [&](const Snap<dim>& x) {
		E e = { x.t, 0, 0, 0, 0, 0 };
		for (auto& p : pos) {
			double a = 0, d = 0;
			for (size_t c = 0; c < dim; c++) {
				double v = vel(p.second, c, x.t);
				a += v * v;
				d += std::pow(v - x.u[c][p.first], 2);
			}
			e.maxU = std::max(e.maxU, std::sqrt(a));
			e.eu = std::max(e.eu, std::sqrt(d));
			e.er = std::max(e.er, std::fabs(rho(p.second, x.t) - x.rho[p.first]));
		}
		dealii::FEValues<dim> v(adv->getMapping(), *adv->getFe(), *adv->getQuadrature(), dealii::update_values | dealii::update_quadrature_points | dealii::update_JxW_values);
		std::vector<dealii::types::global_dof_index> dofs(adv->getFe()->dofs_per_cell);
		for (auto c = adv->getDoFHandler()->begin_active(); c != adv->getDoFHandler()->end(); ++c) {
			v.reinit(c);
			c->get_dof_indices(dofs);
			for (unsigned q = 0; q < v.n_quadrature_points; q++) {
				double r = 0;
				std::array<double, dim> u;
				u.fill(0);
				for (size_t j = 0; j < dofs.size(); j++) {
					r += v.shape_value(j, q) * x.rho[dofs[j]];
					for (size_t d = 0; d < dim; d++) u[d] += v.shape_value(j, q) * x.u[d][dofs[j]];
				}
				e.l2r += std::pow(r - rho(v.quadrature_point(q), x.t), 2) * v.JxW(q);
				for (size_t d = 0; d < dim; d++) e.l2u += std::pow(u[d] - vel(v.quadrature_point(q), d, x.t), 2) * v.JxW(q);
			}
		}
		e.l2r = std::sqrt(e.l2r);
		e.l2u = std::sqrt(e.l2u);
		return e;
	};
	{ // the start is the analytic solution at time zero
		Snap<dim> z;
		z.take(s);
		E e = measure(z);
		near(e.er, 0, 1e-12, "initial density", what);
		near(e.eu, 0, 1e-12 * R.cs, "initial velocity", what);
	}
	size_t last = 0;
	probe<dim>(s, [&](CFDSolver<dim>& b) {
		Snap<dim> x;
		x.take(b);
		if (x.fmax() > 30) throw sim::Crash();
		want[x.it] = measure(x);
		last = x.it;
	});
	try { if (!sim::run_stable(s)) return; } catch (sim::Crash&) { metric("runs-blown-up"); return; }
	auto T = sim::table(dir + "/errors_table.txt");
	check(T.size() == R.N / ti + 1, "errors:rows", what + fmt(" %zu rows", T.size()));
	for (size_t k = 0; k < T.size(); k++) {
		auto& row = T[k];
		if (!check(row.size() == 7 && size_t(row[0]) == k * ti, "errors:iteration", what)) break;
		size_t i = size_t(row[0]);
		if (i == 0) continue;
		const E& e = want[i];
		std::string w = what + fmt(" iteration %zu", i);
		digits(row[1], e.t, 0, "errors:time", w);
		digits(row[2], e.maxU, 0, "errors:analytic velocity", w);
		digits(row[3], e.eu, R.cs, "errors:velocity maximum", w);
		digits(row[4], e.er, 1, "errors:density maximum", w);
		digits(row[5], e.l2u, R.cs, "errors:velocity L2", w);
		digits(row[6], e.l2r, 1, "errors:density L2", w);
	}
	// the files of a benchmark are those of any other run, the final ones included
	auto files = sim::listing(dir), cps = sim::listing(dir + "/checkpoint");
	for (size_t i = 0; i <= R.N; i++) {
		bool f = i % si == 0 || i == R.N, c = i > 0 && (i % ci == 0 || i == R.N);
		check(files.count(fmt("t_0.%zu.vtu", i)) == f, "files:solution", what + fmt(" iteration %zu", i));
		check(cps.count(fmt("checkpoint_%zu.data", i)) == c, "files:checkpoint", what + fmt(" iteration %zu of %zu", i, R.N));
		seen_n(2);
	}
	// analytic fields in the last file
	vtu::Fields F = vtu::read(dir + fmt("/t_0.%zu.vtu", R.N / si * si));
	check(F.count("rho_analytic") && F.count("ux_analytic") && F.count("uy_analytic") && (dim == 2 || F.count("uz_analytic")), "files:analytic fields", what);
	size_t fi = R.N / si * si;
	const char* comp[] = { "ux_analytic", "uy_analytic", "uz_analytic" };
	for (auto& p : pos) { // corners of cells are nodes: compare at the points of the file that are nodes
		const V& pts = F["points"];
		for (size_t k = 0; k < pts.size() / 3; k++) {
			double d2 = 0;
			for (size_t d = 0; d < dim; d++) d2 += std::pow(pts[3 * k + d] - p.second[d], 2);
			if (d2 > 1e-10 * R.dx * R.dx) continue;
			double t = fi * s.getTimeStepSize();
			near(F["rho_analytic"].at(k), rho(p.second, t), 1e-4, "files:analytic density", what);
			for (size_t d = 0; d < dim; d++) near(F[comp[d]].at(k), vel(p.second, d, t), 1e-4 * R.cs, "files:analytic velocity", what);
			seen_n(1 + dim);
			break;
		}
	}
}

void vh_cases(Suite& S) {
	for (int k = 0; k < int(scale(16, 200)); k++) {
		S.push_back({ fmt("tables 2D %d", k), [] { for (int j = 0; j < 3; j++) tables<2>(); } });
		S.push_back({ fmt("tables 3D %d", k), [] { tables<3>(); } });
		S.push_back({ fmt("errors 2D %d", k), [] { for (int j = 0; j < 3; j++) errors<2, false>(); } });
		S.push_back({ fmt("errors 3D %d", k), [] { errors<3, false>(); } });
		if (k % 2) S.push_back({ fmt("errors 2D energy %d", k), [] { errors<2, true>(); } });
		if (k % 4 == 0) S.push_back({ fmt("errors 3D energy %d", k), [] { errors<3, true>(); } });
	}
}

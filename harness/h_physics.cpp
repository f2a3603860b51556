// Supplied benchmark flows against the equations of fluid dynamics (flows), and whole simulations
// against solutions of these equations that the monitor evaluates itself (physics).
#include "waves.h"
#include "feoracle.h"
#include "natrium/problemdescription/Benchmark.h"
#include "natrium/benchmarks/TaylorGreenVortex2D.h"
#include "natrium/benchmarks/TaylorGreenVortex3D.h"
#include "natrium/benchmarks/CouetteFlow2D.h"
#include "natrium/benchmarks/CouetteFlow3D.h"
#include "natrium/benchmarks/PoiseuilleFlow2D.h"
#include "natrium/benchmarks/PoiseuilleFlow3D.h"
#include "natrium/benchmarks/ShearLayer2D.h"
#include "natrium/benchmarks/SinusoidalShear2D.h"
#include "natrium/benchmarks/LubricationSine.h"
#include "natrium/benchmarks/Droplet2D.h"
#include "natrium/benchmarks/Riemann2D.h"
#include "natrium/benchmarks/PeriodicTestDomain2D.h"
#include "natrium/benchmarks/PeriodicTestDomain3D.h"
#include "natrium/benchmarks/AdvectionBenchmark.h"
#include "natrium/solver/BenchmarkCFDSolver.h"

using namespace natrium;
using namespace vh;

// ---------------------------------------------------------------- meshes
struct Extent { double lo, hi; };

// what is true of the mesh of every box-like benchmark
template<size_t dim>
static void box_mesh(ProblemDescription<dim>& p, std::array<Extent, dim> ext, size_t cells, std::array<bool, dim> periodic,
		const std::string& name, const std::string& what) {
	p.refineAndTransform();
	check(p.checkBoundaryConditions(), name + "/boundaries", what);
	auto& m = *p.getMesh();
	check(m.n_active_cells() == cells, name + "/cells", fmt("%u cells, expected %zu; ", m.n_active_cells(), cells) + what);
	double vol = 0, expect = 1;
	for (auto e : ext) expect *= e.hi - e.lo;
	double size = 0;
	for (auto e : ext) size = std::max(size, e.hi - e.lo);
	std::vector<int> faces(2 * dim, 0);
	for (auto c = m.begin_active(); c != m.end(); ++c) {
		double v = c->measure();
		check(v > 0, name + "/volume", what);
		vol += v;
		for (unsigned k = 0; k < dealii::GeometryInfo<dim>::vertices_per_cell; k++)
			for (size_t d = 0; d < dim; d++)
				check(c->vertex(k)[d] > ext[d].lo - 1e-9 * size && c->vertex(k)[d] < ext[d].hi + 1e-9 * size, name + "/extent",
					fmt("coordinate %zu of a vertex is %g; ", d, c->vertex(k)[d]) + what);
		for (unsigned f = 0; f < 2 * dim; f++) {
			bool periodic_face = c->has_periodic_neighbor(f);
			bool at = c->at_boundary(f);
			if (!at) continue;
			size_t id = c->face(f)->boundary_id();
			if (!check(id < 2 * dim, name + "/boundary-id", what)) continue;
			faces[id]++;
			double side = id % 2 ? ext[id / 2].hi : ext[id / 2].lo;
			near(c->face(f)->center()[id / 2], side, 1e-9 * size, name + "/boundary-place", fmt("boundary %zu; ", id) + what);
			check(periodic_face == periodic[id / 2], name + "/periodicity", fmt("boundary %zu; ", id) + what);
			auto& b = p.getBoundaries()->getBoundary(id);
			check(b->isPeriodic() == periodic[id / 2], name + "/periodicity", fmt("boundary %zu; ", id) + what);
			seen_n(1);
		}
	}
	near(vol, expect, 1e-9 * expect, name + "/measure", what);
	for (size_t d = 0; d < dim; d++) check(faces[2 * d] > 0 && faces[2 * d] == faces[2 * d + 1], name + "/faces", what);
	seen(name + what);
	sample(name + ": " + what);
}

// ---------------------------------------------------------------- fields
template<size_t dim> struct Field {
	std::function<double(const P<dim>&, double, unsigned)> u;
	std::function<double(const P<dim>&, double)> p; // kinematic pressure
};
static double deriv(const std::function<double(double)>& f, double h) {
	return (8 * (f(h) - f(-h)) - (f(2 * h) - f(-2 * h))) / (12 * h);
}
static double deriv2(const std::function<double(double)>& f, double h) {
	return (-f(2 * h) - f(-2 * h) + 16 * (f(h) + f(-h)) - 30 * f(0)) / (12 * h * h);
}
// residual of the incompressible Navier-Stokes equations at a point, relative to the terms
template<size_t dim> static void navier_stokes(const Field<dim>& f, P<dim> x, double t, double nu, double len, double time,
		const dealii::Tensor<1, dim>& force, bool momentum, const std::string& name, const std::string& what, double unit = 1) {
	const double h = 2e-3 * len, ht = 2e-3 * time;
	auto shift = [&](size_t d, double s) { P<dim> y = x; y[d] += s; return y; };
	double div = 0, div_scale = 1e-12;
	for (unsigned c = 0; c < dim; c++) {
		double g = deriv([&](double s) { return f.u(shift(c, s), t, c); }, h);
		div += g; div_scale += std::fabs(g);
		double hh = std::fabs(f.u(x, t, c)) / len;
		div_scale += hh;
	}
	near(div, 0, 1e-5 * div_scale, name + "/continuity", what);
	if (momentum)
		for (unsigned c = 0; c < dim; c++) {
			double r = 0, scale = 1e-12, big = unit + std::fabs(f.u(x, t, c)) + std::fabs(f.p(x, t)) / len;
			auto term = [&](double v) { r += v; scale += std::fabs(v); };
			term(deriv([&](double s) { return f.u(x, t + s, c); }, ht));
			for (size_t d = 0; d < dim; d++) {
				term(f.u(x, t, d) * deriv([&](double s) { return f.u(shift(d, s), t, c); }, h));
				term(-nu * deriv2([&](double s) { return f.u(shift(d, s), t, c); }, h));
			}
			term(deriv([&](double s) { return f.p(shift(c, s), t); }, h));
			term(-force[c]);
			near(r, 0, 1e-5 * scale + 1e-9 + big * (1e-12 / ht + 1e-12 * nu / (h * h) + 1e-7 / time), name + "/momentum", fmt("component %u, sum of terms %g; ", c, scale) + what);
		}
	seen(name + what + fmt("%g %g %g", x[0], x[1], t));
}
template<size_t dim> static void periodic(const Field<dim>& f, P<dim> x, double t, size_t d, double len, double tol, const std::string& name, const std::string& what) {
	P<dim> y = x;
	y[d] += len;
	for (unsigned c = 0; c < dim; c++) near(f.u(x, t, c), f.u(y, t, c), tol, name + "/periodic", what);
	near(f.p(x, t), f.p(y, t), tol, name + "/periodic", what);
	seen_n(1);
}
template<size_t dim> static Field<dim> field_of(Benchmark<dim>& b, double cs2) {
	Field<dim> f;
	f.u = [&b](const P<dim>& x, double t, unsigned c) { return b.getAnalyticUFunction(t)->value(x, c); };
	f.p = [&b, cs2](const P<dim>& x, double t) { return cs2 * (b.getAnalyticRhoFunction(t)->value(x) - 1); };
	return f;
}
// initial = analytic at time 0
template<size_t dim> static void initial(Benchmark<dim>& b, P<dim> x, const std::string& name, const std::string& what) {
	double u[dim];
	b.getAnalyticUFunction(7.7); // a time set by somebody else must not matter
	b.getAnalyticRhoFunction(7.7);
	for (unsigned c = 0; c < dim; c++) u[c] = b.getInitialUFunction()->value(x, c);
	double r = b.getInitialRhoFunction()->value(x);
	for (unsigned c = 0; c < dim; c++) near(u[c], b.getAnalyticUFunction(0)->value(x, c), 1e-14 * (1 + std::fabs(u[c])), name + "/initial", what);
	near(r, b.getAnalyticRhoFunction(0)->value(x), 1e-14, name + "/initial", what);
	seen_n(1);
}
template<size_t dim> static P<dim> inside(const std::array<Extent, dim>& e) {
	P<dim> x;
	for (size_t d = 0; d < dim; d++) x[d] = rng().uni(e[d].lo, e[d].hi);
	return x;
}
static size_t ipow(size_t b, size_t e) { size_t r = 1; while (e--) r *= b; return r; }

static void flow_tgv2d() {
	auto& r = rng();
	for (size_t n = 0; n < scale(12, 60); n++) {
		double L = r.flip(0.3) ? 2 * M_PI : r.logu(0.2, 30), nu = r.logu(1e-3, 3), cs = r.uni(0.3, 20);
		bool ana = r.flip(0.7);
		size_t ref = r.below(4);
		TaylorGreenVortex2D b(nu, ref, cs, ana, L);
		double U = r.flip(0.5) ? 0 : r.uni(-3, 3);
		b.setHorizontalVelocity(U);
		std::string what = fmt("L %g nu %g cs %g U %g ref %zu", L, nu, cs, U, ref);
		near(b.getViscosity(), nu, 0, "tgv2d/viscosity", what);
		std::array<Extent, 2> ext = {{ { 0, L }, { 0, L } }};
		Field<2> f = field_of<2>(b, cs * cs);
		double k = 2 * M_PI / L, T = std::min(1 / (nu * k * k), 1 / (k * (1 + std::fabs(U))));
		for (int i = 0; i < 25; i++) {
			P<2> x = inside<2>(ext);
			double t = r.uni(0.01, 1.5) * T;
			// (other lengths: decay and advection are those of the wave number instead of its square, a finding of its own)
			if (std::fabs(L - 2 * M_PI) < 1e-9) navier_stokes<2>(f, x, t, nu, 1, T, dealii::Tensor<1, 2>(), ana, "tgv2d", what);
			else {
				double D = std::exp(-2 * nu * k * k * t), a = k * (x[0] - U * t), c = k * x[1];
				check(std::fabs(f.u(x, t, 0) - U - std::sin(a) * std::cos(c) * D) < 1e-9 && std::fabs(f.u(x, t, 1) + std::cos(a) * std::sin(c) * D) < 1e-9, "tgv2d/length", what);
				near(f.u(x, 0, 0), U + std::sin(k * x[0]) * std::cos(k * x[1]), 1e-9, "tgv2d/start", what);
				near(f.u(x, 0, 1), -std::cos(k * x[0]) * std::sin(k * x[1]), 1e-9, "tgv2d/start", what);
				if (ana) near(f.p(x, 0), 0.25 * (std::cos(2 * k * x[0]) + std::cos(2 * k * x[1])), 1e-9 * (1 + cs * cs), "tgv2d/start", what);
			}
			for (size_t d = 0; d < 2; d++) periodic<2>(f, x, t, d, L, 1e-9, "tgv2d", what);
			initial<2>(b, x, "tgv2d", what);
			// vortices of unit strength
			near(f.u(P<2>(L / 4, 0), 0, 0) - U, 1, 1e-9, "tgv2d/strength", what);
			if (!ana) near(f.p(x, t), 0, 0, "tgv2d/density", what);
		}
		box_mesh<2>(b, ext, ipow(4, ref), {{ true, true }}, "tgv2d", what);
	}
}
static void flow_tgv3d() {
	auto& r = rng();
	for (size_t n = 0; n < scale(8, 40); n++) {
		double nu = r.logu(1e-3, 3), cs = r.uni(0.3, 20), num = r.uni(0.1, 3);
		bool ana = r.flip(0.7), comp = r.flip(0.3);
		size_t ref = r.below(2), rep = 1 + r.below(3);
		TaylorGreenVortex3D b(nu, ref, cs, ana, rep, num, comp);
		std::string what = fmt("nu %g cs %g numerator %g analytic %d compressible %d rep %zu ref %zu", nu, cs, num, ana, comp, rep, ref);
		const double L = 2 * M_PI;
		std::array<Extent, 3> ext = {{ { 0, L }, { 0, L }, { 0, L } }};
		Field<3> f;
		f.u = [&](const P<3>& x, double, unsigned c) { return b.getInitialUFunction()->value(x, c); };
		double factor = comp ? 1 / num : cs * cs;
		f.p = [&](const P<3>& x, double) { return factor * (b.getInitialRhoFunction()->value(x) - 1); };
		for (int i = 0; i < 20; i++) {
			P<3> x = inside<3>(ext);
			navier_stokes<3>(f, x, 0, nu, 1, 1, dealii::Tensor<1, 3>(), false, "tgv3d", what);
			for (size_t d = 0; d < 3; d++) periodic<3>(f, x, 0, d, L, 1e-9, "tgv3d", what);
			near(f.u(P<3>(L / 4, 0, 0), 0, 0), 1, 1e-9, "tgv3d/strength", what);
			near(b.getInitialTFunction()->value(x), 1, 0, "tgv3d/temperature", what);
			// pressure of the velocity field: laplace p = - grad u : grad u
			double lap = 0, rhs = 0;
			for (size_t c = 0; c < 3; c++) {
				lap += deriv2([&](double s) { P<3> y = x; y[c] += s; return f.p(y, 0); }, 5e-3);
				for (size_t d = 0; d < 3; d++)
					rhs -= deriv([&](double s) { P<3> y = x; y[c] += s; return f.u(y, 0, d); }, 5e-3)
						* deriv([&](double s) { P<3> y = x; y[d] += s; return f.u(y, 0, c); }, 5e-3);
			}
			near(lap, ana ? rhs : 0, 1e-4, "tgv3d/pressure", what);
		}
		box_mesh<3>(b, ext, ipow(rep, 3) * ipow(8, ref), {{ true, true, true }}, "tgv3d", what);
	}
}
template<size_t dim> static void couette_field(Benchmark<dim>& b, double nu, double U, double h, double t0, std::array<Extent, dim> ext, const std::string& name, const std::string& what) {
	auto& r = rng();
	Field<dim> f = field_of<dim>(b, 1);
	const size_t w = dim - 1; // direction across the gap
	for (int i = 0; i < 25; i++) {
		P<dim> x = inside<dim>(ext);
		double T = h * h / nu;
		double t = std::max(T * r.logu(2e-3, 3) - t0, 1e-4);
		x[w] = h * r.uni(0.02, 0.98);
		if (t + t0 > 1e-3 * T && t > 2e-3 * (t + t0)) {
			navier_stokes<dim>(f, x, t, nu, 0.1 * std::sqrt(std::min(T, t + t0) / T) * h, 0.05 * std::min(t + t0, t * 4), dealii::Tensor<1, dim>(), true, name, what + fmt(" t %g", t), U);
			P<dim> lo = x, hi = x;
			lo[w] = 0; hi[w] = h;
			near(f.u(lo, t, 0), 0, 1e-7 * U, name + "/wall", what + fmt(" t %g", t));
			near(f.u(hi, t, 0), U, 1e-7 * U, name + "/wall", what + fmt(" t %g", t));
		}
		// at rest before, linear for ever after
		near(f.u(x, 30 * T, 0), U * x[w] / h, 1e-9 * U, name + "/steady", what);
		double tt = 1e-3 * T - t0;
		P<dim> y = x;
		y[w] = h * r.uni(0, 0.5);
		if (tt > 0) near(f.u(y, tt, 0), 0, 1e-9 * U, name + "/rest", what);
		initial<dim>(b, x, name, what);
	}
}
// one verdict for a stretched mesh of a box: cells are not inside out and fill it
template<size_t dim> static void stretched_box(Benchmark<dim>& b, std::array<Extent, dim> ext, const std::string& key, const std::string& what) {
	b.refineAndTransform();
	auto& m = *b.getMesh();
	double vol = 0, all = 1;
	bool good = true;
	for (size_t d = 0; d < dim; d++) all *= ext[d].hi - ext[d].lo;
	for (auto c = m.begin_active(); c != m.end(); ++c) {
		vol += c->measure();
		good = good && c->measure() > 0;
		for (unsigned v = 0; v < dealii::GeometryInfo<dim>::vertices_per_cell; v++)
			for (size_t d = 0; d < dim; d++) good = good && c->vertex(v)[d] > ext[d].lo - 1e-9 && c->vertex(v)[d] < ext[d].hi + 1e-9;
	}
	check(good && std::fabs(vol - all) < 1e-9 * all, key, what + fmt(" measure %g of %g", vol, all));
	seen(key + what);
}
static void flow_couette() {
	auto& r = rng();
	for (size_t n = 0; n < scale(12, 40); n++) {
		double nu = r.logu(1e-2, 2), U = r.logu(0.01, 30), L = r.flip(0.3) ? 1 : r.logu(0.3, 5), t0 = r.flip(0.5) ? 0 : r.uni(0, 2) * L * L / nu;
		bool un = r.flip(0.5);
		{
			size_t ref = 1 + r.below(3);
			CouetteFlow2D b(nu, U, ref, L, t0, un);
			std::string what = fmt("L %g nu %g U %g t0 %g unstructured %d ref %zu", L, nu, U, t0, un, ref);
			std::array<Extent, 2> ext = {{ { 0, L }, { 0, L } }};
			couette_field<2>(b, nu, U, L, t0, ext, "couette2d", what);
			if (!un || L == 1) box_mesh<2>(b, ext, ipow(4, ref), {{ true, false }}, "couette2d", what);
			else stretched_box<2>(b, ext, "couette2d/stretched-length", what);
			near(b.getCharacteristicVelocity(), U, 0, "couette2d/velocity", what);
		}
		if (n % 2 == 0) {
			size_t ref = 1 + r.below(2), len = 1 + r.below(3);
			double t1 = t0 / (L * L);
			CouetteFlow3D b(nu, U, ref, len, t1, un);
			std::string what = fmt("L %zu nu %g U %g t0 %g unstructured %d ref %zu", len, nu, U, t1, un, ref);
			std::array<Extent, 3> ext = {{ { 0, double(len) }, { 0, 1 }, { 0, 1 } }};
			if (len == 1) couette_field<3>(b, nu, U, 1, t1, ext, "couette3d", what);
			else { // the plates are at 0 and 1 for any length
				double z = r.uni();
				check(std::fabs(b.getAnalyticUFunction(30 / nu)->value(P<3>(r.uni(), r.uni(), z), 0) - U * z) < 1e-9 * U, "couette3d/length", what);
			}
			if (!un) box_mesh<3>(b, ext, len * ipow(8, ref), {{ true, true, false }}, "couette3d", what);
			else stretched_box<3>(b, ext, "couette3d/stretched", what);
		}
	}
}
static void flow_poiseuille() {
	auto& r = rng();
	for (size_t n = 0; n < scale(12, 40); n++) {
		double nu = r.logu(1e-3, 2), U = r.logu(0.01, 30), h = r.logu(0.3, 5), l = r.logu(0.3, 5), w = r.logu(0.3, 5);
		size_t ref = 1 + r.below(2);
		std::string what = fmt("height %g length %g width %g nu %g U %g ref %zu", h, l, w, nu, U, ref);
		// the steady profile with the stated bulk velocity balances the force
		double F = 12 * U * nu / (h * h);
		{
			PoiseuilleFlow2D b(nu, ref, U, h, l, true);
			near(b.getExternalForce()->getForce()[0], F, 1e-12 * F, "poiseuille2d/force", what);
			near(b.getExternalForce()->getForce()[1], 0, 0, "poiseuille2d/force", what);
			box_mesh<2>(b, {{ { 0, l }, { 0, h } }}, ipow(4, ref), {{ true, false }}, "poiseuille2d", what);
		}
		{
			PoiseuilleFlow3D b(nu, ref, U, h, w, l, true);
			near(b.getExternalForce()->getForce()[0], F, 1e-12 * F, "poiseuille3d/force", what);
			for (int c = 1; c < 3; c++) near(b.getExternalForce()->getForce()[c], 0, 0, "poiseuille3d/force", what);
			box_mesh<3>(b, {{ { 0, l }, { 0, w }, { 0, h } }}, ipow(8, ref), {{ true, true, false }}, "poiseuille3d", what);
		}
	}
}
static void flow_others() {
	auto& r = rng();
	for (size_t n = 0; n < scale(12, 40); n++) {
		double nu = r.logu(1e-3, 2), U = r.logu(0.01, 30);
		size_t ref = 1 + r.below(3);
		{
			double kappa = r.uni(60, 120), pert = r.uni(0, 0.2), tx = r.uni(0, 0.9), ty = r.uni(0, 0.9);
			ShearLayer2D b(nu, ref, U, kappa, pert, tx, ty);
			std::string what = fmt("shear layer: nu %g U %g kappa %g perturbation %g ref %zu trafo %g %g", nu, U, kappa, pert, ref, tx, ty);
			Field<2> f;
			f.u = [&](const P<2>& x, double, unsigned c) { return b.getInitialUFunction()->value(x, c); };
			f.p = [&](const P<2>& x, double) { return b.getInitialRhoFunction()->value(x); };
			for (int i = 0; i < 20; i++) {
				P<2> x(r.uni(), r.uni());
				navier_stokes<2>(f, x, 0, nu, 1 / kappa, 1, dealii::Tensor<1, 2>(), false, "shear-layer", what);
				for (size_t d = 0; d < 2; d++) {
					P<2> y = x;
					y[d] = 0;
					periodic<2>(f, y, 0, d, 1, 1e-9 * U, "shear-layer", what);
				}
				// two layers of thickness 1/kappa between streams of speed U, perturbed by a sine
				double s = r.uni(-0.2, 0.2);
				near(f.u(P<2>(x[0], 0.25 + s), 0, 0), U * std::tanh(kappa * s), 1e-9 * U, "shear-layer/profile", what);
				near(f.u(P<2>(x[0], 0.75 + s), 0, 0), -U * std::tanh(kappa * s), 1e-9 * U, "shear-layer/profile", what);
				near(f.u(x, 0, 1), pert * U * std::cos(2 * M_PI * x[0]), 1e-9 * U, "shear-layer/perturbation", what);
			}
			box_mesh<2>(b, {{ { 0, 1 }, { 0, 1 } }}, ipow(4, ref), {{ true, true }}, "shear-layer", what);
		}
		{
			double L = r.logu(0.3, 5), h = r.logu(0.3, 5), a = h * r.uni(0.05, 0.6), rough = r.flip(0.5) ? 0 : 0.1 * h * r.uni();
			size_t ratio = 1 + r.below(3), cells_x = 1 + r.below(4);
			double aspect = L / h / (cells_x + 0.01);
			LubricationSine b(nu, U, ref, L, h, a, aspect, rough, ratio);
			b.refineAndTransform();
			std::string what = fmt("lubrication: L %g h %g amplitude %g roughness %g/%zu cells %zu ref %zu", L, h, a, rough, ratio, cells_x, ref);
			check(b.checkBoundaryConditions(), "lubrication/boundaries", what);
			auto& m = *b.getMesh();
			check(m.n_active_cells() == cells_x * ipow(4, ref), "lubrication/cells", what);
			for (auto c = m.begin_active(); c != m.end(); ++c) {
				check(c->measure() > 0, "lubrication/volume", what);
				for (unsigned k = 0; k < 4; k++) if (c->at_boundary(k)) {
					size_t id = c->face(k)->boundary_id();
					for (unsigned v = 0; v < 2; v++) {
						P<2> x = c->face(k)->vertex(v);
						if (id < 2) near(x[0], id * L, 1e-9 * L, "lubrication/end", what);
						if (id == 2) near(x[1], 0, 1e-9 * h, "lubrication/bottom", what);
						if (id == 3) near(x[1], h + a * std::cos(2 * M_PI * x[0] / L) + rough * std::cos(2 * M_PI * x[0] * ratio / L), 1e-9 * h, "lubrication/gap", what);
					}
					check(c->has_periodic_neighbor(k) == (id < 2), "lubrication/periodicity", what);
					seen_n(1);
				}
			}
			// the initial velocity agrees with the moving wall, and does not enter the others
			near(b.getInitialUFunction()->value(P<2>(r.uni() * L, 0), 0), U, 1e-9 * U, "lubrication/initial", what);
			seen(what);
		}
		{
			double L = r.logu(0.3, 5), h = r.logu(0.3, 5), a = h * r.uni(0.05, 0.6);
			if (n == 0) { h = 4.5; a = 2.5; ref = 3; }
			size_t cells_x = 1 + r.below(4);
			SinusoidalShear2D b(nu, U, ref, L, h, a, 1. / (cells_x + 0.01));
			b.refineAndTransform();
			std::string what = fmt("sinusoidal shear: L %g h %g amplitude %g cells %zu ref %zu", L, h, a, cells_x, ref);
			check(b.checkBoundaryConditions(), "sinusoidal/boundaries", what);
			auto& m = *b.getMesh();
			check(m.n_active_cells() == cells_x * ipow(4, ref), "sinusoidal/cells", what);
			bool large = a > 2; // cells inside out: a finding of its own
			if (large) {
				bool good = true;
				for (auto c = m.begin_active(); c != m.end(); ++c) good = good && c->measure() > 0;
				check(good, "sinusoidal/large-amplitude", what);
			} else for (auto c = m.begin_active(); c != m.end(); ++c) {
				check(c->measure() > 0, "sinusoidal/volume", what);
				for (unsigned k = 0; k < 4; k++) if (c->at_boundary(k)) {
					size_t id = c->face(k)->boundary_id();
					for (unsigned v = 0; v < 2; v++) {
						P<2> x = c->face(k)->vertex(v);
						if (id < 2) near(x[0], id * L, 1e-9 * L, "sinusoidal/end", what);
						if (id == 2) near(x[1], 0, 1e-9 * h, "sinusoidal/bottom", what);
						if (id == 3) near(x[1], h + a * std::sin(2 * M_PI * x[0] / L), 1e-9 * h, "sinusoidal/gap", what);
					}
					check(c->has_periodic_neighbor(k) == (id < 2), "sinusoidal/periodicity", what);
					seen_n(1);
				}
			}
			for (unsigned c = 0; c < 2; c++) near(b.getInitialUFunction()->value(P<2>(r.uni() * L, r.uni() * h), c), 0, 0, "sinusoidal/initial", what);
			seen(what);
		}
		{
			double l = r.logu(0.5, 5), h = r.logu(0.5, 5), R0 = 0.25 * std::min(l, h), W = 0.02 * R0, rl = r.uni(1, 5), rg = r.uni(0.1, 1);
			Droplet2D b(nu, ref, l, h, rl, rg, W, R0);
			std::string what = fmt("droplet: %g x %g radius %g densities %g %g", l, h, R0, rl, rg);
			auto rho = [&](double d, double ang) { return b.getInitialRhoFunction()->value(P<2>(l / 2 + d * std::cos(ang), h / 2 + d * std::sin(ang))); };
			for (int i = 0; i < 10; i++) {
				double ang = r.uni(0, 7), s = r.uni(-2, 2);
				near(rho(R0 * r.uni(0, 0.7), ang), rl, 1e-6, "droplet/liquid", what);
				near(rho(R0 * r.uni(1.3, 1.8), ang), rg, 1e-6, "droplet/gas", what);
				near(rho(R0 + s * W, ang), 0.5 * (rl + rg) - 0.5 * (rl - rg) * std::tanh(s), 1e-9, "droplet/interface", what);
				for (unsigned c = 0; c < 2; c++) near(b.getInitialUFunction()->value(P<2>(r.uni() * l, r.uni() * h), c), 0, 0, "droplet/velocity", what);
				seen(what + fmt("%g", ang));
			}
			box_mesh<2>(b, {{ { 0, l }, { 0, h } }}, ipow(4, ref), {{ true, true }}, "droplet", what);
		}
		{
			double tx = r.uni(0, 0.9), ty = r.uni(0, 0.9);
			Riemann2D b(nu, ref, U, 1, 0.05, tx, ty);
			std::string what = fmt("riemann: trafo %g %g ref %zu", tx, ty, ref);
			// four states; those with the same pressure are next to each other
			for (int i = 0; i < 12; i++) {
				P<2> x(2 * r.uni(), 2 * r.uni());
				int q = (x[0] > 1) + 2 * (x[1] > 1);
				double rho = b.getInitialRhoFunction()->value(x), T = b.getInitialTFunction()->value(x);
				double er[] = { 0.8, 1, 1, 0.5313 }, ep[] = { 1, 1, 1, 0.400227 }, eu[] = { 0, 0, 0.7276, 0 }, ev[] = { 0, 0.7276, 0, 0 };
				near(rho, er[q], 1e-12, "riemann/density", what);
				near(rho * T, ep[q], 1e-5, "riemann/pressure", what);
				// lattice units: the unit of velocity is sqrt(3) cs
				near(b.getInitialUFunction()->value(x, 0), eu[q] / std::sqrt(3), 1e-4, "riemann/velocity", what);
				near(b.getInitialUFunction()->value(x, 1), ev[q] / std::sqrt(3), 1e-4, "riemann/velocity", what);
				seen(what + fmt("%g", x[0]));
			}
			box_mesh<2>(b, {{ { 0, 2 }, { 0, 2 } }}, ipow(4, ref + 1), {{ false, false }}, "riemann", what);
		}
		if (n % 3 == 0) {
			PeriodicTestDomain2D b(ref);
			box_mesh<2>(b, {{ { 0, 1 }, { 0, 1 } }}, ipow(4, ref), {{ true, true }}, "domain2d", "periodic test domain");
			PeriodicTestDomain3D c(ref - 1);
			box_mesh<3>(c, {{ { 0, 1 }, { 0, 1 }, { 0, 1 } }}, ipow(8, ref - 1), {{ true, true, true }}, "domain3d", "periodic test domain");
		}
	}
}
// transport of a wave by one advection operator
static void flow_advection() {
	auto& r = rng();
	setenv("NATRIUM_HOME", st().scratch.c_str(), 1);
	mkdir((st().scratch + "/convergence-advection-solver").c_str(), 0777);
	for (size_t n = 0; n < scale(12, 40); n++) {
		size_t ref = 1 + r.below(3), p = 1 + r.below(6);
		bool sl = false, smooth = r.flip(0.7), out = false;
		double dx = std::pow(0.5, ref), steps = 10 + r.below(40);
		double dt = (sl ? r.uni(0.1, 3) : r.uni(0.05, 0.25)) * dx / ((p + 1) * (p + 1)) ;
		auto res = AdvectionBenchmark::oneTest(ref, p, dt, (steps - 0.5) * dt, RUNGE_KUTTA_5STAGE, NONE, smooth, sl, out);
		std::string what = fmt("advection: ref %zu p %zu dt %g steps %g %s smooth %d out %d", ref, p, dt, steps, sl ? "SL" : "SEDG", smooth, out);
		near(res.deltaX, dx, 0, "advection/dx", what);
		near(res.deltaT, dt, 0, "advection/dt", what);
		// interpolation error of the wave, once per step at most, no more than the wave itself
		double e = 1;
		for (size_t i = 1; i <= p + 1; i++) e *= 2 * M_PI * dx / (4.0 * i) * (smooth ? 1 : 2);
		double dofs = (sl ? std::pow((1 << ref) * p + 1, 2) : std::pow((1 << ref) * (p + 1), 2));
		double bound = smooth ? std::min(3.0, 4 * e * (sl ? std::min(steps, 20.0) : 12.0) + 1e-6) : 1.2;
		metric_max("advection-error/bound", res.normSup / bound);
		check(res.normSup <= bound, "advection/error", fmt("largest error %g, bound %g; ", res.normSup, bound) + what);
		check(res.norm2 <= res.normSup * std::sqrt(dofs) * 1.0000001 && res.norm2 >= res.normSup * 0.9999999, "advection/norms", what);
		seen(what);
		// the error is that of the end of the run, with or without output
		auto again = AdvectionBenchmark::oneTest(ref, p, dt, (steps - 0.5) * dt, RUNGE_KUTTA_5STAGE, NONE, smooth, sl, !out);
		check(std::fabs(again.normSup - res.normSup) < 1e-12 && std::fabs(again.norm2 - res.norm2) < 1e-10, "advection/output", what);
		for (int i = 0; i < 20; i++) {
			P<2> x(r.uni(), r.uni());
			double t = r.uni(0, 5), s = std::sin(2 * M_PI * (x[0] - t));
			near(AdvectionBenchmark::analytic_solution(t, x, true), s, 1e-9, "advection/smooth", what);
			near(AdvectionBenchmark::analytic_solution(t, x, false), s * std::fabs(s), 1e-9, "advection/nonsmooth", what);
			seen_n(2);
		}
	}
}


static void flow_advection_sl() {
	setenv("NATRIUM_HOME", st().scratch.c_str(), 1);
	mkdir((st().scratch + "/convergence-advection-solver").c_str(), 0777);
	auto res = AdvectionBenchmark::oneTest(2, 3, 0.01, 0.1, RUNGE_KUTTA_5STAGE, NONE, true, true, false);
	check(res.normSup < 0.1, "advection/semi-lagrangian", fmt("error %g", res.normSup));
	seen("semi-Lagrangian");
}

// ---------------------------------------------------------------- whole simulations
// a transversal wave decays with the viscosity and travels with the mean flow
template<size_t dim> static void shear_wave() {
	auto& r = rng();
	for (size_t n = 0; n < scale(dim == 2 ? 5 : 2, 40); n++) {
		Run<dim> R = resolved<dim>(0.7, 1.6);
		dealii::Tensor<1, dim> k, e;
		wave_vector<dim>(R, k, e);
		double rate = R.nu * k.norm_square();
		// scales of collision and flow stay apart
		while (rate * R.dt * R.tau > 0.012) {
			R.cfl *= 0.8;
			R.finish();
			rate = R.nu * k.norm_square();
		}
		while (0.1 / (rate * R.dt) > (dim == 2 ? 500 : 80) && R.tau < 2.5) {
			R.tau += 0.2;
			R.finish();
			rate = R.nu * k.norm_square();
		}
		R.N = std::min(dim == 2 ? 500. : 80., std::max(60., 0.1 / (rate * R.dt)));
		double A = 0.02 * R.cs, phase = r.uni(0, 6.28), U[dim];
		for (size_t d = 0; d < dim; d++) U[d] = r.uni(-1, 1) * 0.02 * R.cs;
		std::string what = R.str() + fmt(" | k %g %g %g nu %g", k[0], k[1], dim == 3 ? k[dim - 1] : 0, R.nu);
		auto p = problem_with<dim>(R, [](const P<dim>&) { return 1.0; },
			[=](const P<dim>& x, unsigned c) { return U[c] + A * e[c] * std::cos(k * x + phase); });
		CFDSolver<dim> s(R.config(), p);
		near(s.getTimeStepSize(), R.dt, 1e-12 * R.dt, "shear/dt", what);
		std::vector<double> amp, times;
		probe<dim>(s, [&](CFDSolver<dim>& q) {
			size_t it = q.getIteration();
			if (it != R.N / 3 && it != R.N) return;
			Nodes<dim> w;
			w.take(q);
			double t = q.getTime();
			std::vector<double> ph, f;
			for (size_t i = 0; i < w.x.size(); i++) {
				double v = 0, a = k * w.x[i] + phase;
				for (size_t d = 0; d < dim; d++) { v += w.u[i][d] * e[d]; a -= k[d] * U[d] * t; }
				ph.push_back(a); f.push_back(v);
			}
			Fit ft = fit(ph, f);
			double expect = A * std::exp(-rate * t);
			near(ft.c, expect, 0.01 * A + A * rate * R.dt * R.tau, "shear/amplitude", fmt("step %zu, decay %g; ", it, rate * t) + what);
			near(ft.s, 0, 0.01 * A, "shear/phase", what);
			metric_max("shear-phase", std::fabs(ft.s) / A);
			check(ft.rest < 0.02 * A, "shear/shape", fmt("rest %g of %g; ", ft.rest, A) + what);
			metric_max("shear-rest", ft.rest / A);
			amp.push_back(ft.c); times.push_back(t);
			seen(what + fmt("%zu", it));
		});
		s.run();
		if (check(amp.size() == 2 && amp[0] > 0 && amp[1] > 0, "shear/steps", what)) {
			double measured = std::log(amp[0] / amp[1]) / (times[1] - times[0]);
			double rel = measured / rate - 1;
			metric_max("shear-viscosity-error", std::fabs(rel));
			check(std::fabs(rel) < 0.02 + rate * R.dt * R.tau + (R.adv == SEDG ? 0 : 3e-5 / (rate * R.dt)) + 2e-4 / (rate * (times[1] - times[0])), "shear/viscosity", fmt("measured viscosity %g, stated %g; ", measured / k.norm_square(), R.nu) + what);
			seen(what);
			sample(fmt("viscosity off by %.2g; ", rel) + what);
		}
	}
}
// a standing sound wave
template<size_t dim> static void sound_wave() {
	auto& r = rng();
	for (size_t n = 0; n < scale(dim == 2 ? 5 : 2, 40); n++) {
		Run<dim> R = resolved<dim>(0.55, 1.0, false);
		dealii::Tensor<1, dim> k, e;
		wave_vector<dim>(R, k, e);
		while (R.cs * k.norm() * R.dt > 0.15) {
			R.cfl *= 0.8;
			R.finish();
		}
		double kk = k.norm(), gamma = R.nu * kk * kk, omega = std::sqrt(std::pow(R.cs * kk, 2) - gamma * gamma);
		double cycles = r.uni(1, 5);
		R.N = std::max(20., std::min(dim == 2 ? 600. : 100., cycles / (omega * R.dt)));
		double A = 0.003, phase = r.uni(0, 6.28);
		double rho0 = r.flip() ? 1 : r.uni(0.5, 2);
		std::string what = R.str() + fmt(" | k %g %g %g nu %g omega t %g rho0 %g", k[0], k[1], dim == 3 ? k[dim - 1] : 0, R.nu, omega * R.N * R.dt, rho0);
		auto p = problem_with<dim>(R, [=](const P<dim>& x) { return rho0 * (1 + A * std::cos(k * x + phase)); },
			[=](const P<dim>&, unsigned) { return 0.0; });
		CFDSolver<dim> s(R.config(), p);
		probe<dim>(s, [&](CFDSolver<dim>& q) {
			size_t it = q.getIteration();
			if (it == 0 || (it % std::max<size_t>(R.N / 4, 1) != 0 && it != R.N)) return;
			Nodes<dim> w;
			w.take(q);
			double t = q.getTime();
			std::vector<double> ph, f, g;
			for (size_t i = 0; i < w.x.size(); i++) {
				double v = 0;
				for (size_t d = 0; d < dim; d++) v += w.u[i][d] * k[d] / kk;
				ph.push_back(k * w.x[i] + phase); f.push_back(w.rho[i] / rho0 - 1); g.push_back(v);
			}
			Fit a = fit(ph, f), b = fit(ph, g);
			double decay = std::exp(-gamma * t);
			double er = A * decay * (std::cos(omega * t) + gamma / omega * std::sin(omega * t));
			double eu = A * decay * R.cs * R.cs * kk / omega * std::sin(omega * t);
			metric_max("sound-error", std::max(std::fabs(a.c - er) / A, std::fabs(b.s - eu) / (A * R.cs)));
			near(a.c, er, 0.03 * A, "sound/density", fmt("omega t %g; ", omega * t) + what);
			near(b.s, eu, 0.03 * A * R.cs, "sound/velocity", fmt("omega t %g; ", omega * t) + what);
			near(a.s, 0, 0.02 * A, "sound/standing", what);
			near(b.c, 0, 0.02 * A * R.cs, "sound/standing", what);
			near(a.a, 0, 0.02 * A, "sound/mean", what);
			check(a.rest < 0.05 * A, "sound/shape", what);
			seen(what + fmt("%zu", it));
		});
		s.run();
		sample(what);
	}
}
// channels: flow between plates starting from rest, driven by a plate or a force
template<size_t dim> static void channel() {
	auto& r = rng();
	for (size_t n = 0; n < scale(dim == 2 ? 5 : 2, 40); n++) {
		Run<dim> R = resolved<dim>(0.8, 1.4);
		bool by_force = r.flip();
		// (a moving plate makes a thin layer at first, which the few steps of the Eulerian scheme do not get out of in 3D)
		while (by_force ? R.model.coll != BGK_STANDARD : dim == 3 && R.adv == SEDG) R = resolved<dim>(0.8, 1.4);
		size_t w = r.below(dim); // direction across
		for (size_t d = 0; d < dim; d++) if (d != w) R.spec.reps[d] = 2; // uniform in the other directions
		R.spec.periodic[w] = false;
		R.walls = sim::STILL;
		double cap = dim == 2 ? 600 : 100;
		R.finish();
		double h = R.spec.len[w];
		auto decay = [&]() { return R.nu * R.dt / (h * h); };
		while (0.05 / decay() > cap && R.tau < 2.5) { R.tau += 0.2; R.finish(); }
		R.N = std::min(cap, std::max(30., r.uni(0.05, 0.3) / decay()));
		dealii::Tensor<1, dim> dir;
		for (size_t d = 0; d < dim; d++) dir[d] = d == w ? 0 : r.uni(-1, 1);
		dir /= dir.norm();
		double U = 0.03 * R.cs;
		bool upper = r.flip(0.5);
		if (by_force) {
			R.force = true;
			R.forcing = r.pick(std::vector<ForceType>{ SHIFTING_VELOCITY, EXACT_DIFFERENCE });
			R.F = dir;
			R.F *= 8 * R.nu * U / (h * h);
		}
		auto wall = [&](size_t id) -> boost::shared_ptr<Boundary<dim> > {
			dealii::Tensor<1, dim> v;
			if (!by_force && id == 2 * w + upper) v = U * dir;
			return boost::make_shared<VelocityNeqBounceBack<dim> >(id, v);
		};
		std::string what = R.str() + fmt(" | across %zu, %s, nu t/h^2 %g", w, by_force ? "force" : upper ? "upper plate" : "lower plate", decay() * R.N);
		auto p = problem_with<dim>(R, [](const P<dim>&) { return 1.0; }, [](const P<dim>&, unsigned) { return 0.0; }, wall);
		CFDSolver<dim> s(R.config(), p);
		probe<dim>(s, [&](CFDSolver<dim>& q) {
			if (q.getIteration() != R.N) return;
			Nodes<dim> o;
			o.take(q);
			double t = q.getTime(), tau = R.nu * t / (h * h);
			double worst = 0, across = 0;
			for (size_t i = 0; i < o.x.size(); i++) {
				double y = o.x[i][w] / h;
				if (!upper) y = 1 - y;
				double e = by_force ? 4 * y * (1 - y) : y;
				for (int m = 1; m < 60; m++) {
					double b = m * M_PI;
					if (by_force) { if (m % 2) e -= 32 / (b * b * b) * std::sin(b * y) * std::exp(-b * b * tau); }
					else e += 2 / b * (m % 2 ? -1 : 1) * std::sin(b * y) * std::exp(-b * b * tau);
				}
				for (size_t d = 0; d < dim; d++) worst = std::max(worst, std::fabs(o.u[i][d] - U * e * dir[d]));
				across = std::max(across, std::fabs(o.u[i][w]));
			}
			metric_max(by_force ? "poiseuille-error" : "couette-error", worst / U);
			check(worst < 0.03 * U, by_force ? "channel/poiseuille" : "channel/couette", fmt("largest deviation %g of %g; ", worst, U) + what);
			check(across < 0.01 * U, "channel/across", what);
			seen(what);
			sample(fmt("deviation %.2g; ", worst / U) + what);
		});
		s.run();
	}
}
// the Taylor-Green vortex of the library, through the solver of the library
static void vortex() {
	auto& r = rng();
	for (size_t n = 0; n < scale(3, 30); n++) {
		Run<2> R = resolved<2>(0.7, 1.5);
		double L = 2 * M_PI, k = 1;
		for (size_t d = 0; d < 2; d++) { R.spec.len[d] = L; R.spec.reps[d] = 1; }
		R.spec.refine = 2;
		R.scaling = 30 * r.uni(1, 2); // vortices of strength 1
		R.finish();
		R.N = std::min(400., std::max(40., 0.2 / (R.nu * k * k * R.dt)));
		double U = r.uni(-0.5, 0.5);
		auto b = boost::make_shared<TaylorGreenVortex2D>(R.nu, 2, R.cs, true, L);
		b->setHorizontalVelocity(U);
		std::string what = R.str() + fmt(" | L %g U %g", L, U);
		BenchmarkCFDSolver<2> s(R.config(), b);
		probe<2>(s, [&](CFDSolver<2>& q) {
			if (q.getIteration() != R.N) return;
			Nodes<2> o;
			o.take(q);
			double t = q.getTime(), worst = 0, pworst = 0, D = std::exp(-2 * R.nu * k * k * t);
			for (size_t i = 0; i < o.x.size(); i++) {
				double x = k * (o.x[i][0] - U * t), y = k * o.x[i][1];
				worst = std::max(worst, std::fabs(o.u[i][0] - U - std::sin(x) * std::cos(y) * D));
				worst = std::max(worst, std::fabs(o.u[i][1] + std::cos(x) * std::sin(y) * D));
				pworst = std::max(pworst, std::fabs(R.cs * R.cs * (o.rho[i] - 1) - 0.25 * (std::cos(2 * x) + std::cos(2 * y)) * D * D));
			}
			metric_max("vortex-velocity-error", worst);
			metric_max("vortex-pressure-error", pworst);
			check(worst < 0.03, "vortex/velocity", fmt("largest deviation %g at decay %g; ", worst, D) + what);
			seen(what);
		});
		s.run();
	}
}

void vh_cases(Suite& s) {
	s.push_back({ "flows/tgv2d", flow_tgv2d });
	s.push_back({ "flows/tgv3d", flow_tgv3d });
	s.push_back({ "flows/couette", flow_couette });
	s.push_back({ "flows/poiseuille", flow_poiseuille });
	s.push_back({ "flows/others", flow_others });
	s.push_back({ "flows/advection", flow_advection });
	s.push_back({ "flows/advectionSL", flow_advection_sl });
	s.push_back({ "physics/shear2d", shear_wave<2> });
	s.push_back({ "physics/shear3d", shear_wave<3> });
	s.push_back({ "physics/sound2d", sound_wave<2> });
	s.push_back({ "physics/sound3d", sound_wave<3> });
	s.push_back({ "physics/channel2d", channel<2> });
	s.push_back({ "physics/channel3d", channel<3> });
	s.push_back({ "physics/vortex", vortex });
}

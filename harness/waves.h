// Whole simulations against waves: nodal values, fits, configurations that resolve the waves.
#pragma once
#include "run.h"
template<size_t d> using P = dealii::Point<d>;
using sim::Run;
using sim::probe;
using vh::rng;
using namespace natrium;

// nodal values of a solver with their points
template<size_t dim> struct Nodes {
	std::vector<P<dim> > x;
	std::vector<double> rho;
	std::vector<std::array<double, dim> > u;
	void take(const CFDSolver<dim>& s) {
		std::map<dealii::types::global_dof_index, P<dim> > pos;
		s.getAdvectionOperator()->mapDoFsToSupportPoints(pos);
		x.clear(); rho.clear(); u.clear();
		for (auto& q : pos) {
			x.push_back(q.second);
			rho.push_back(s.getDensity()(q.first));
			std::array<double, dim> v;
			for (size_t d = 0; d < dim; d++) v[d] = s.getVelocity().at(d)(q.first);
			u.push_back(v);
		}
	}
};
// least squares fit of f = a + c cos(p) + s sin(p); returns a, c, s and the largest rest
struct Fit { double a, c, s, rest; };
static Fit fit(const std::vector<double>& phase, const std::vector<double>& f) {
	double M[3][4] = {};
	for (size_t i = 0; i < f.size(); i++) {
		double b[4] = { 1, std::cos(phase[i]), std::sin(phase[i]), f[i] };
		for (int r = 0; r < 3; r++) for (int c = 0; c < 4; c++) M[r][c] += b[r] * b[c];
	}
	for (int k = 0; k < 3; k++)
		for (int r = 0; r < 3; r++) if (r != k) {
			double q = M[r][k] / M[k][k];
			for (int c = k; c < 4; c++) M[r][c] -= q * M[k][c];
		}
	Fit t = { M[0][3] / M[0][0], M[1][3] / M[1][1], M[2][3] / M[2][2], 0 };
	for (size_t i = 0; i < f.size(); i++)
		t.rest = std::max(t.rest, std::fabs(f[i] - t.a - t.c * std::cos(phase[i]) - t.s * std::sin(phase[i])));
	return t;
}

// models, meshes and time steps that resolve waves of the size of the box
template<size_t dim> static Run<dim> resolved(double tau_lo, double tau_hi, bool mrt = true) {
	auto& r = rng();
	Run<dim> R;
	do R.model = r.pick(sim::models()); while (R.model.dim != dim || (!mrt && R.model.coll == MRT_STANDARD));
	R.adv = r.flip(0.5) ? SEDG : SEMI_LAGRANGIAN;
	R.order = dim == 2 ? 3 + r.below(3) : 3 + r.below(2);
	if (R.adv == SEMI_LAGRANGIAN) R.order = std::max<size_t>(R.order, 4); // cubic interpolation is too coarse for the tolerances
	const size_t points = dim == 2 ? (R.order == 3 ? 24 : 16) : (R.order == 3 ? 15 : 11);
	size_t cells = std::max<size_t>(2, (points + R.order - 1) / R.order);
	for (size_t d = 0; d < dim; d++) {
		R.spec.reps[d] = cells;
		R.spec.refine = 0;
	}
	if (cells % 2 == 0 && r.flip()) {
		for (size_t d = 0; d < dim; d++) R.spec.reps[d] = cells / 2;
		R.spec.refine = 1;
	}
	double L = r.logu(0.2, 20);
	for (size_t d = 0; d < dim; d++) R.spec.len[d] = L * r.uni(0.8, 1.25);
	R.scaling = r.flip(0.3) ? 1.0 : r.logu(0.3, 100);
	R.tau = r.uni(R.adv == SEDG ? tau_lo : std::max(tau_lo, 0.5 * (tau_lo + tau_hi)), tau_hi);
	R.cfl = R.adv == SEDG ? r.uni(0.25, 0.4) : r.uni(1, 4);
	R.rho0 = 1;
	R.mach = 0.02;
	R.finish();
	return R;
}
template<size_t dim> static boost::shared_ptr<box::Problem<dim> > problem_with(const Run<dim>& R,
		std::function<double(const P<dim>&)> rho, std::function<double(const P<dim>&, unsigned)> u,
		typename box::Problem<dim>::WallMaker walls = typename box::Problem<dim>::WallMaker()) {
	auto s = R.spec;
	s.viscosity = R.nu;
	auto p = boost::make_shared<box::Problem<dim> >(s, walls, false);
	p->setInitialRho(boost::make_shared<box::Fn<dim> >(1, [rho](const P<dim>& x, unsigned, double) { return rho(x); }));
	p->setInitialU(boost::make_shared<box::Fn<dim> >(dim, [u](const P<dim>& x, unsigned c, double) { return u(x, c); }));
	p->uchar = R.mach * R.cs;
	if (R.force) p->setExternalForce(boost::make_shared<ConstantExternalForce<dim> >(R.F));
	return p;
}
template<size_t dim> static void wave_vector(const Run<dim>& R, dealii::Tensor<1, dim>& k, dealii::Tensor<1, dim>& n) {
	auto& r = rng();
	for (;;) {
		for (size_t d = 0; d < dim; d++) k[d] = 2 * M_PI * (double(r.below(3)) - 1) / R.spec.len[d];
		if (k.norm() == 0) continue;
		if (dim == 3 && k[0] != 0 && k[1] != 0 && k[2] != 0) continue; // too fine for the meshes
		for (size_t d = 0; d < dim; d++) n[d] = r.uni(-1, 1);
		n -= (n * k) / k.norm_square() * k;
		if (n.norm() < 0.2) continue;
		n /= n.norm();
		return;
	}
}

// independent modal filter: coefficients in products of Legendre polynomials, damped one by one
#pragma once
#include "deal.II/fe/fe.h"
#include "deal.II/lac/full_matrix.h"
#include "deal.II/dofs/dof_handler.h"
#include "lattice.h"

struct Damping { // what a filter is asked to do with the polynomial of degrees (k_1..k_dim)
	bool is_new = false, by_sum = false;
	double alpha = 36, s = 6;
	size_t nc = 1, p = 1, dim = 2;
	double sigma(const std::vector<size_t>& k) const {
		double sum = 0, mx = 0;
		for (size_t a : k) { sum += a; mx = std::max(mx, double(a)); }
		double top = dim * p;
		if (is_new) return std::exp(-alpha * std::pow(sum / top, s));
		double deg = by_sum ? sum : mx;
		if (!by_sum) top = p;
		if (deg < nc) return 1;
		return std::exp(-alpha * std::pow((deg + 1 - nc) / (top + 1 - nc), s));
	}
	std::string str() const { return vh::fmt("%s alpha %.3g s %.3g Nc %zu %s", is_new ? "new" : "exponential", alpha, s, nc, by_sum ? "by sum" : "by max"); }
};
// Legendre polynomial of degree k on [0,1], not normalised
inline double legendre(size_t k, double x) {
	double z = 2 * x - 1, a = 1, b = z;
	if (k == 0) return 1;
	for (size_t n = 1; n < k; n++) { double c = ((2 * n + 1) * z * b - n * a) / (n + 1); a = b; b = c; }
	return b;
}
template<int dim>
inline std::vector<std::vector<size_t> > degrees(size_t p) {
	std::vector<std::vector<size_t> > r;
	std::vector<size_t> k(dim, 0);
	for (;;) {
		r.push_back(k);
		int d = 0;
		while (d < dim && ++k[d] > p) k[d++] = 0;
		if (d == dim) return r;
	}
}
// values at the nodes -> filtered values at the nodes
template<int dim>
struct ModalFilter {
	dealii::FullMatrix<double> F;
	ModalFilter() {}
	ModalFilter(const dealii::FiniteElement<dim>& fe, const Damping& D) {
		auto K = degrees<dim>(D.p);
		size_t n = fe.dofs_per_cell;
		const auto& pts = fe.get_unit_support_points();
		dealii::FullMatrix<double> V(n), W(n), I(n);
		for (size_t i = 0; i < n; i++) for (size_t k = 0; k < n; k++) {
			double v = 1;
			for (int d = 0; d < dim; d++) v *= legendre(K[k][d], pts[i][d]);
			V(i, k) = v;
			W(i, k) = v * D.sigma(K[k]);
		}
		I.invert(V);
		F.reinit(n, n);
		W.mmult(F, I);
	}
	template<class Vec>
	void apply(const dealii::DoFHandler<dim>& dh, Vec& v) const {
		size_t n = F.m();
		std::vector<dealii::types::global_dof_index> dofs(n);
		dealii::Vector<double> a(n), b(n);
		for (auto c = dh.begin_active(); c != dh.end(); ++c) {
			if (!c->is_locally_owned()) continue;
			c->get_dof_indices(dofs);
			for (size_t i = 0; i < n; i++) a(i) = v(dofs[i]);
			F.vmult(b, a);
			for (size_t i = 0; i < n; i++) v(dofs[i]) = b(i);
		}
	}
};
// populations with the moments up to second order of the given ones and nothing else;
// bulk = false: also without the trace of the second moment
inline std::vector<double> second_order(const Lattice& L, const std::vector<double>& f, bool bulk) {
	std::vector<double> r(L.q, 0.0);
	for (size_t i = 0; i < L.q; i++) for (size_t j = 0; j < L.q; j++) {
		double e = 0, qq = 0, ti = 0, tj = 0;
		for (size_t a = 0; a < L.d; a++) {
			e += L.e[i][a] * L.e[j][a];
			ti += L.e[i][a] * L.e[i][a] - L.cs2;
			tj += L.e[j][a] * L.e[j][a] - L.cs2;
			for (size_t b = 0; b < L.d; b++)
				qq += (L.e[i][a] * L.e[i][b] - (a == b) * L.cs2) * (L.e[j][a] * L.e[j][b] - (a == b) * L.cs2);
		}
		if (!bulk) qq -= ti * tj / L.d;
		r[i] += L.w[i] * f[j] * (1 + e / L.cs2 + qq / (2 * L.cs2 * L.cs2));
	}
	return r;
}

// Independent evaluation of a finite element function at arbitrary points of a (periodic) box mesh.
#pragma once
#include "box.h"
#include "natrium/advection/AdvectionOperator.h"
#include "natrium/solver/DistributionFunctions.h"
#include "deal.II/fe/fe_values.h"

namespace box {

template<size_t dim>
struct FEOracle {
	typedef dealii::Point<dim> P;
	AdvectionOperator<dim>& adv;
	Spec<dim> spec;
	std::map<dealii::types::global_dof_index, P> pos;
	struct C { typename dealii::DoFHandler<dim>::active_cell_iterator it; P lo, hi; std::vector<dealii::types::global_dof_index> dofs; };
	std::vector<C> cells;
	double h; // diameter scale
	FEOracle(AdvectionOperator<dim>& a, const Spec<dim>& s) : adv(a), spec(s) {
		adv.mapDoFsToSupportPoints(pos);
		h = 0;
		for (auto it = adv.getDoFHandler()->begin_active(); it != adv.getDoFHandler()->end(); ++it) {
			if (it->is_artificial()) continue;
			C c;
			c.it = it;
			c.lo = c.hi = it->vertex(0);
			for (unsigned v = 1; v < dealii::GeometryInfo<dim>::vertices_per_cell; v++)
				for (size_t d = 0; d < dim; d++) {
					c.lo[d] = std::min(c.lo[d], it->vertex(v)[d]);
					c.hi[d] = std::max(c.hi[d], it->vertex(v)[d]);
				}
			h = std::max(h, c.lo.distance(c.hi));
			c.dofs.resize(adv.getFe()->dofs_per_cell);
			it->get_dof_indices(c.dofs);
			cells.push_back(c);
		}
	}
	// one deterministic function of space, periodic where the domain is
	struct Wave {
		std::vector<std::array<double, dim + 1> > k;
		const Spec<dim>* s;
		double operator()(const P& x) const {
			P u = s->unshear(x);
			double r = 0;
			for (auto& w : k) {
				double p = w[dim];
				for (size_t d = 0; d < dim; d++) p += w[d] * u[d] / s->len[d];
				r += std::cos(p);
			}
			return r;
		}
	};
	Wave random_wave(int n = 3) const {
		Wave w;
		w.s = &spec;
		auto& r = vh::rng();
		for (int i = 0; i < n; i++) {
			std::array<double, dim + 1> k;
			for (size_t d = 0; d < dim; d++)
				k[d] = spec.periodic[d] ? 2 * M_PI * (double(r.below(41)) - 20) : r.uni(-60, 60);
			k[dim] = r.uni(0, 2 * M_PI);
			w.k.push_back(k);
		}
		return w;
	}
	// all periodic images of x that lie in (or touch) the domain's cells: values of the FE function there
	template<class V>
	void eval(const P& x, const V& u, std::vector<double>& out, int reach = 3) const {
		out.clear();
		std::array<int, dim> n;
		n.fill(0);
		images(x, 0, reach, n, u, out);
	}
	template<class V>
	void images(const P& x, size_t d, int reach, std::array<int, dim>& n, const V& u, std::vector<double>& out) const {
		if (d == dim) { at(x, u, out); return; }
		if (!spec.periodic[d]) { images(x, d + 1, reach, n, u, out); return; }
		for (int k = -reach; k <= reach; k++)
			images(P(x + double(k) * spec.lattice(d)), d + 1, reach, n, u, out);
	}
	template<class V>
	void at(const P& x, const V& u, std::vector<double>& out) const {
		const double tol = 1e-8;
		for (auto& c : cells) {
			bool in = true;
			for (size_t d = 0; d < dim && in; d++)
				in = x[d] >= c.lo[d] - tol * h && x[d] <= c.hi[d] + tol * h;
			if (!in) continue;
			P q;
			try { q = adv.getMapping().transform_real_to_unit_cell(c.it, x); }
			catch (std::exception&) { continue; }
			for (size_t d = 0; d < dim; d++) in = in && q[d] >= -tol && q[d] <= 1 + tol;
			if (!in) continue;
			double v = 0;
			for (size_t j = 0; j < c.dofs.size(); j++)
				v += adv.getFe()->shape_value(j, q) * u(c.dofs[j]);
			bool dup = false;
			for (double o : out) dup = dup || std::fabs(o - v) < 1e-12;
			if (!dup) out.push_back(v);
		}
	}
};
} // namespace box

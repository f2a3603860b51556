// C20: filters and stabilizers as operators on random fields
#include "run.h"
#include "natrium/smoothing/ExponentialFilter.h"
#include "natrium/smoothing/NewFilter.h"
#include "natrium/dataprocessors/PseudoEntropicStabilizer.h"
#include "natrium/advection/SEDGMinLee.h"
#include "natrium/advection/SemiLagrangian.h"
#include "deal.II/fe/fe_values.h"

using namespace natrium;
using namespace vh;
using namespace sim;

template<size_t dim> static void filters() {
	for (size_t rep = 0; rep < scale(6, 60); rep++) {
		Run<dim> R = Run<dim>::random(scale(900, 3000), false, false);
		auto prob = R.problem(true);
		// nodes of all kinds, quadratures of all kinds
		unsigned p = 1 + rng().below(dim == 2 ? 7 : 4);
		auto fe = AdvectionTools::make_fe_by_name<dim>(rng().pick(std::vector<SupportPointsName>{ GAUSS_LOBATTO_POINTS, GAUSS_CHEBYSHEV_POINTS, GAUSS_LOBATTO_CHEBYSHEV_POINTS, EQUIDISTANT_POINTS }), p, true);
		auto quad = AdvectionTools::make_quadrature_by_name<dim>(rng().flip() ? QGAUSS : QGAUSS_LOBATTO, p + 1);
		dealii::DoFHandler<dim> dh(*prob->getMesh());
		dh.distribute_dofs(*fe);
		Damping D;
		D.dim = dim; D.p = p;
		D.is_new = rng().flip(0.4);
		D.by_sum = rng().flip();
		D.alpha = rng().flip(0.1) ? 0 : rng().logu(0.05, 60);
		D.s = rng().logu(0.3, 40);
		D.nc = rng().below((D.by_sum ? dim * p : p) + 2); // one more than the highest degree: nothing is filtered
		boost::shared_ptr<Filter<dim> > F;
		bool late = rng().flip(0.2); // parameters changed afterwards
		if (D.is_new) {
			auto f = boost::make_shared<NewFilter<dim> >(late ? 1.5 : D.alpha, late ? 3 : D.s, *quad, *fe);
			if (late) { f->setAlpha(D.alpha); f->setS(D.s); }
			check(f->getAlpha() == D.alpha && f->getS() == D.s, "parameters", D.str());
			F = f;
		} else {
			auto f = boost::make_shared<ExponentialFilter<dim> >(late ? 1.5 : D.alpha, late ? 3 : D.s, D.nc, D.by_sum, *quad, *fe);
			if (late) { f->setAlpha(D.alpha); f->setS(D.s); }
			check(f->getAlpha() == D.alpha && f->getS() == D.s, "parameters", D.str());
			F = f;
		}
		std::string what = fmt("%zuD p%u ", dim, p) + D.str() + " " + R.spec.str();
		sample(what);
		seen(what);
		distributed_vector v(dh.locally_owned_dofs(), MPI_COMM_WORLD);
		auto K = degrees<dim>(p);
		std::vector<dealii::types::global_dof_index> dofs(fe->dofs_per_cell);
		std::map<dealii::types::global_dof_index, double> want;
		std::vector<double> means;
		const auto& pts = fe->get_unit_support_points();
		for (auto c = dh.begin_active(); c != dh.end(); ++c) {
			if (!c->is_locally_owned()) continue;
			c->get_dof_indices(dofs);
			std::vector<double> co(K.size());
			for (double& x : co) x = rng().uni(-1, 1);
			means.push_back(co[0]);
			for (size_t i = 0; i < dofs.size(); i++) {
				double a = 0, b = 0;
				for (size_t k = 0; k < K.size(); k++) {
					double y = co[k];
					for (size_t d = 0; d < dim; d++) y *= legendre(K[k][d], pts[i][d]);
					a += y;
					b += y * D.sigma(K[k]);
				}
				v(dofs[i]) = a;
				want[dofs[i]] = b;
			}
		}
		F->applyFilter(dh, v);
		for (auto& w : want) {
			seen_n(1);
			if (!near(v(w.first), w.second, 1e-8, D.is_new ? "new-filter" : D.by_sum ? "exponential-filter:sum" : "exponential-filter:max", what)) break;
		}
		metric(D.is_new ? "new filters" : D.by_sum ? "filters by sum" : "filters by maximum");
	}
}

template<size_t dim> static void stabilizers() {
	for (size_t rep = 0; rep < scale(4, 60); rep++) {
		// the matrices on random populations
		StencilType t = dim == 2 ? Stencil_D2Q9 : Stencil_D3Q19;
		auto st = info(t).make(rng().logu(0.1, 100));
		Lattice L(*st);
		for (int k = 0; k < 20; k++) {
			std::vector<double> f(L.q);
			for (double& x : f) x = rng().uni(-1, 1);
			auto w = second_order(L, f, true);
			std::array<double, 9> a9, b9;
			std::array<double, 19> a19, b19;
			if (dim == 2) { std::copy(f.begin(), f.end(), a9.begin()); applyStabilizer<9>(a9, b9); }
			else { std::copy(f.begin(), f.end(), a19.begin()); applyStabilizer<19>(a19, b19); }
			for (size_t i = 0; i < L.q; i++) { near(dim == 2 ? b9[i] : b19[i], w[i], 1e-13, "stabilizer:matrix", fmt("%zuD population %zu", dim, i)); seen_n(1); }
		}
		// in a simulation, step by step
		Run<dim> R = Run<dim>::random(scale(500, 2000), false, false);
		R.model = { int(dim), t, BGK_STANDARD, BGK_EQUILIBRIUM, dim == 2 ? "D2Q9-BGK" : "D3Q19-BGK" };
		R.N = 2 + rng().below(6);
		R.tau = std::max(R.tau, 0.6);
		if (R.adv == SEDG) R.cfl = std::min(R.cfl, 0.4);
		R.finish();
		R.random_fields();
		bool with_e = dim == 2 && rng().flip();
		std::string what = R.str() + fmt(" with E %d", with_e);
		sample(what);
		seen(what);
		Lattice M(*R.st);
		// by hand: before and after
		std::vector<size_t> hashes;
		{
			auto s = boost::make_shared<CFDSolver<dim> >(R.config(), R.problem(false));
			std::vector<std::vector<double> > before;
			probe<dim>(*s, [&](CFDSolver<dim>& x) { Snap<dim> z; z.take(x); before = z.f; if (z.fmax() > 30) throw Crash(); });
			s->appendDataProcessor(boost::make_shared<PseudoEntropicStabilizer<dim> >(*s, with_e));
			probe<dim>(*s, [&](CFDSolver<dim>& x) {
				Snap<dim> z;
				z.take(x);
				hashes.push_back(z.hash());
				std::vector<double> f(M.q);
				double big = 1e-12 * (1 + z.fmax());
				for (size_t k = 0; k < z.rho.size(); k++) {
					for (size_t i = 0; i < M.q; i++) f[i] = before[i][k];
					auto w = second_order(M, f, !with_e);
					for (size_t i = 0; i < M.q; i++) near(z.f[i][k], w[i], big, with_e ? "stabilizer:with E" : "stabilizer", what + fmt(" step %zu", z.it));
					// also in the ghosted copy that is streamed
					near(x.getF().atGhosted(M.q - 1)(k), w[M.q - 1], big, "stabilizer:ghosted", what);
				}
				seen_n(z.rho.size() * M.q);
			});
			bool ok = true;
			try { ok = run_stable(*s); } catch (Crash&) { ok = false; }
			if (!ok) { metric("runs-blown-up"); continue; }
		}
		// by configuration: the same trajectory
		auto cfg = R.config();
		cfg->setRegularizationScheme(with_e ? PSEUDO_ENTROPY_MAXIMIZATION_WITH_E : PSEUDO_ENTROPY_MAXIMIZATION);
		CFDSolver<dim> s(cfg, R.problem(false));
		size_t k = 0;
		probe<dim>(s, [&](CFDSolver<dim>& x) {
			Snap<dim> z;
			z.take(x);
			check(k < hashes.size() && z.hash() == hashes[k], "stabilizer:configured", what + fmt(" step %zu", k + 1));
			k++;
			seen_n(1);
		});
		if (!run_stable(s)) continue;
		check(k == hashes.size(), "stabilizer:steps", what);
		metric("stabilized runs");
	}
}

void vh_cases(Suite& S) {
	for (int k = 0; k < int(scale(16, 120)); k++) {
		S.push_back({ fmt("filter 2D %d", k), filters<2> });
		S.push_back({ fmt("filter 3D %d", k), filters<3> });
		if (k % 4 == 0) S.push_back({ fmt("stabilizer 2D %d", k), stabilizers<2> });
		if (k % 4 == 0) S.push_back({ fmt("stabilizer 3D %d", k), stabilizers<3> });
	}
}

// C07-C10: advection operators and boundaries against an independent evaluation of the same
// finite element functions
#include "feoracle.h"
#include "stencils.h"
#include "lattice.h"
#include "natrium/collision/CollisionModel.h"
#include "natrium/boundaries/SLEquilibriumBoundary.h"
#include "natrium/boundaries/SLFirstOrderBounceBack.h"
#include "natrium/boundaries/DoNothingBoundary.h"
#include "natrium/advection/SemiLagrangian.h"
#include "natrium/advection/SEDGMinLee.h"
using namespace natrium;
using namespace vh;
using namespace box;

template<size_t dim> static std::vector<const StencilInfo*> pool(size_t maxq) {
	std::vector<const StencilInfo*> v;
	for (auto& s : all_stencils()) if (s.d == dim && s.q <= maxq) v.push_back(&s);
	return v;
}
template<size_t dim> static dealii::Tensor<1, dim> dir(const Stencil& s, size_t i) {
	dealii::Tensor<1, dim> e;
	for (size_t d = 0; d < dim; d++) e[d] = s.getDirection(i)(d);
	return e;
}
template<size_t dim> static double hmin(const Mesh<dim>& m) {
	double h = 1e9;
	for (auto c = m.begin_active(); c != m.end(); ++c)
		for (unsigned f = 0; f < dealii::GeometryInfo<dim>::lines_per_cell; f++)
			h = std::min(h, c->line(f)->vertex(0).distance(c->line(f)->vertex(1)));
	return h;
}
static double emax(const Stencil& s) {
	double m = 0;
	for (size_t i = 0; i < s.getQ(); i++) m = std::max(m, s.getDirection(i).l2_norm());
	return m;
}
static const std::vector<SupportPointsName> POINTS = { GAUSS_LOBATTO_POINTS, GAUSS_LOBATTO_CHEBYSHEV_POINTS, EQUIDISTANT_POINTS };

// path of a particle with straight walls in the non-periodic directions: it turns back at every wall
template<size_t dim> struct Hit { dealii::Point<dim> x; double t_back, sign; std::vector<size_t> faces; };
template<size_t dim> struct Path {
	bool hit = false, ambiguous = false, buried = false; // buried: enclosed in a corner
	dealii::Point<dim> departure, wall;
	double t_back = 0, sign = 1; // sign of the direction at the departure point
	std::vector<Hit<dim> > hits;
};
template<size_t dim> static Path<dim> trace(const Spec<dim>& s, dealii::Point<dim> x, const dealii::Tensor<1, dim>& e, double dt) {
	Path<dim> p;
	double t = 0;
	size_t still = 0;
	while (p.hits.size() < 40) {
		dealii::Point<dim> xr = s.unshear(x);
		dealii::Tensor<1, dim> er = e;
		er[0] -= s.shear * e[1];
		double left = dt - t, first = 1e300;
		std::vector<std::pair<double, size_t> > cross;
		for (size_t d = 0; d < dim; d++) {
			if (s.periodic[d]) continue;
			double y = xr[d] - left * p.sign * er[d], scale = 1e-9 * s.len[d];
			if (y < -scale || y > s.len[d] + scale) {
				double tt = std::max(0.0, (xr[d] - (y < 0 ? 0 : s.len[d])) / (p.sign * er[d]));
				cross.push_back({ tt, 2 * d + (y < 0 ? 0 : 1) });
				first = std::min(first, tt);
			}
		}
		if (cross.empty()) {
			p.departure = x - left * p.sign * e;
			if (p.hits.size() == 1) { p.wall = p.hits[0].x; p.t_back = p.hits[0].t_back; }
			p.hit = !p.hits.empty();
			return p;
		}
		still = first < 1e-8 * dt ? still + 1 : 0;
		if (still > 1) { p.buried = true; p.hits.clear(); return p; } // two walls at the same point
		Hit<dim> h;
		x = x - first * p.sign * e;
		t += first;
		h.x = x;
		h.t_back = t;
		h.sign = p.sign;
		for (auto& c : cross) if (c.first < first + 1e-8 * dt) h.faces.push_back(c.second);
		p.hits.push_back(h);
		p.sign = -p.sign;
	}
	p.ambiguous = true;
	return p;
}

// ---------------------------------------------------------------- semi-Lagrangian streaming
enum Kind { K_NONE, K_NEQ, K_EQ, K_DN, K_FO };
template<size_t dim> static void sl(Kind kind) {
	const bool walls = kind != K_NONE;
	Spec<dim> s = random_spec<dim>(!walls, true, dim == 2 ? 40 : 20);
	if (walls) {
		s.wobble = 0;
		bool any = false;
		for (size_t d = 0; d < dim; d++) any = any || !s.periodic[d];
		if (!any) s.periodic[rng().below(dim)] = false;
		if (s.periodic[1]) s.shear = 0;
	}
	for (size_t d = 0; d < dim; d++) // a periodic direction needs two cells
		if (s.periodic[d] && s.refine == 0 && s.reps[d] < 2) s.reps[d] = 2;
	if (dim == 3) s.wobble = 0; // faces that are not plane: outside the claim
	turn_cells(s);
	bool local = !walls && s.cartesian() && rng().flip(0.2);
	if (local) { for (size_t d = 0; d < dim; d++) s.reps[d] = 3; s.refine = 0; s.local_refine = true; }
	const StencilInfo* I = rng().pick(pool<dim>(walls ? 27 : 45));
	double scaling = rng().flip(0.5) ? 1.0 : rng().logu(0.1, 10);
	auto st_ = I->make(scaling);
	size_t order = 1 + rng().below(dim == 2 ? 4 : 2);
	SupportPointsName pts = rng().pick(POINTS);
	// moving walls: affine in space and time
	std::array<std::array<double, dim + 2>, dim> W;
	double mag = walls && rng().flip(0.7) ? 0.1 : 0.0;
	for (auto& a : W) for (auto& v : a) v = mag * rng().uni(-1, 1);
	std::vector<double> W0; // every wall has its own velocity
	for (size_t k = 0; k < 2 * dim * dim; k++) W0.push_back(mag * rng().uni(-1, 1));
	auto wallu = [W, W0, s](const dealii::Point<dim>& p_, unsigned c, double t, size_t face) {
		dealii::Point<dim> p = s.unshear(p_);
		double r = W[c][dim] + W[c][dim + 1] * t + W0[face * dim + c];
		for (size_t d = 0; d < dim; d++) r += W[c][d] * (s.periodic[d] ? std::sin(2 * M_PI * p[d] / s.len[d]) : p[d]);
		return r;
	};
	dealii::Tensor<1, dim> u_in;
	double T_in = rng().flip(0.5) ? 1.0 : rng().uni(0.7, 1.3);
	for (size_t d = 0; d < dim; d++) u_in[d] = 0.1 * scaling * rng().uni(-1, 1);
	Problem<dim> problem(s, [&](size_t id) -> boost::shared_ptr<Boundary<dim> > {
		if (kind == K_EQ) {
			if (rng().flip()) return boost::make_shared<SLEquilibriumBoundary<dim> >(id, u_in, T_in);
			dealii::Vector<double> v(dim);
			for (size_t d = 0; d < dim; d++) v(d) = u_in[d];
			return boost::make_shared<SLEquilibriumBoundary<dim> >(id, v, T_in);
		}
		if (kind == K_DN) return boost::make_shared<DoNothingBoundary<dim> >(id);
		if (kind == K_FO) return boost::make_shared<SLFirstOrderBounceBack<dim> >(id);
		return boost::make_shared<VelocityNeqBounceBack<dim> >(id,
				boost::shared_ptr<dealii::Function<dim> >(new Fn<dim>(dim, [wallu, id](const dealii::Point<dim>& p, unsigned c, double t) { return wallu(p, c, t, id); })));
	});
	Lattice L(*st_);
	double h = hmin<dim>(*problem.getMesh());
	double cfl = rng().flip(0.2) ? rng().logu(1e-6, 0.02) : kind == K_NEQ ? rng().logu(0.02, 1.9) : walls ? rng().logu(0.02, 0.9) : rng().logu(0.02, 2.2);
	double dt = rng().flip(0.2) ? h / scaling * (rng().flip() ? 1.0 : 0.5) : cfl * h / emax(*st_);
	if (dt * emax(*st_) > 2.5 * h || (walls && dt * emax(*st_) > (kind == K_NEQ ? 2.0 : 0.95) * h)) dt = 0.5 * h / emax(*st_);
	std::string what = fmt("%s scaling %.4g order %zu points %d dt %.4g ", I->name, scaling, order, (int) pts, dt) + s.str();
	seen(what);
	sample(what);
	SemiLagrangian<dim> adv(problem, order, QGAUSS_LOBATTO, pts, st_, dt);
	adv.setupDoFs();
	adv.setDeltaT(dt);
	adv.reassemble();
	FEOracle<dim> fe(adv, s);
	const size_t Q = st_->getQ();
	DistributionFunctions f(false), f_old(false);
	f.reinit(Q, adv.getLocallyOwnedDofs(), adv.getLocallyRelevantDofs(), MPI_COMM_WORLD, false);
	f_old.reinit(Q, adv.getLocallyOwnedDofs(), adv.getLocallyRelevantDofs(), MPI_COMM_WORLD, false);
	std::vector<typename FEOracle<dim>::Wave> waves;
	size_t n = adv.getNumberOfDoFs();
	for (size_t a = 0; a < Q; a++) {
		waves.push_back(fe.random_wave());
		for (size_t i = 0; i < n; i++) f.at(a)(i) = waves[a](fe.pos[i]);
	}
	DistributionFunctions f0(f);
	double t = rng().uni(0, 3);
	adv.stream(f_old, f, t);
	const char* tags[] = { "sl", "sl-wall", "sl-equilibrium", "sl-do-nothing", "sl-first-order" };
	const std::string tag = tags[kind];
	const double cs2 = st_->getSpeedOfSoundSquare();
	std::vector<double> cand;
	size_t hits = 0, skipped = 0;
	for (size_t i = 0; i < n; i++) {
		check(f.at(0)(i) == f0.at(0)(i), tag + ":rest-population-moves", what);
		for (size_t a = 1; a < Q; a++) {
			Path<dim> p = trace<dim>(s, fe.pos[i], dir<dim>(*st_, a), dt);
			if (p.ambiguous || (kind != K_NEQ && (p.buried || p.hits.size() > 1))) { skipped++; continue; }
			size_t b = p.sign < 0 ? st_->getIndexOfOppositeDirection(a) : a;
			std::vector<double> adds(1, 0.0);
			cand.clear();
			if (p.buried)
				cand.assign(1, f0.at(a)(i)); // nothing can get there: keeps its value
			else if (p.hit && kind == K_EQ) {
				std::vector<double> v(dim);
				for (size_t d = 0; d < dim; d++) v[d] = u_in[d] / scaling;
				cand.assign(1, L.hermite(a, 1.0, v, T_in, 4));
			} else if (p.hit && kind == K_FO)
				cand.assign(1, f.at(b)(i));
			else if (p.hit && kind == K_DN)
				fe.eval(fe.pos[i] + dt * dir<dim>(*st_, a), f0.at(a), cand);
			else
				fe.eval(p.departure, f0.at(b), cand);
			hits += p.hits.size();
			if (p.buried) metric("populations enclosed in corners");
			if (p.hits.size() > 1) metric("paths with two or more walls");
			if (kind == K_NEQ)
				for (auto& h : p.hits) { // exactly in a corner, either wall may count
					std::vector<double> more;
					for (size_t face : h.faces) {
						double add = 0;
						for (size_t d = 0; d < dim; d++)
							add += 2 * h.sign * st_->getWeight(a) * st_->getDirection(a)(d) * wallu(h.x, d, t - h.t_back, face) / cs2;
						for (double b_ : adds) more.push_back(add + b_);
					}
					adds = more;
				}
			double got = f.at(a)(i), best = 1e300;
			for (double c : cand) for (double add : adds) if (std::fabs(c + add - got) < std::fabs(best)) best = c + add - got;
			if (cand.empty()) { metric("departure-outside"); continue; }
			metric_max("error", std::fabs(best));
			if (!(std::fabs(best) < 2e-6)) {
				violation(tag + (p.buried ? ":corner" : p.hits.size() > 1 ? ":two-walls" : p.hit ? ":bounce" : ":value"), what + fmt(": dof %zu direction %zu got %.12g off by %.3g (%zu walls, buried %d)", i, a, got, best, p.hits.size(), p.buried));
			}
		}
	}
	seen_n(n * (Q - 1) - skipped);
	metric("paths", n * (Q - 1));
	metric("wall hits", hits);
	if (walls) check(hits > 0, "harness:no-hits", what);
	if (kind == K_EQ) { // the internal energy that enters with the gas; everything else is left alone
		DistributionFunctions g(f);
		for (size_t a = 0; a < Q; a++) for (size_t i = 0; i < n; i++) g.at(a)(i) = rng().uni(0.1, 1);
		DistributionFunctions g0(g), f1(f);
		double gamma = rng().uni(1.15, 1.65);
		adv.applyBoundaryConditionsToG(f, g, t, gamma);
		double factor = T_in * (2 / (gamma - 1) - dim);
		for (size_t i = 0; i < n; i++)
			for (size_t a = 0; a < Q; a++) {
				check(f.at(a)(i) == f1.at(a)(i), tag + ":inflow-energy-changes-f", what);
				Path<dim> p;
				if (a > 0) {
					p = trace<dim>(s, fe.pos[i], dir<dim>(*st_, a), dt);
					if (p.ambiguous || p.buried || p.hits.size() > 1) continue;
				}
				double expect = a > 0 && p.hit ? f.at(a)(i) * factor : g0.at(a)(i);
				if (!near(g.at(a)(i), expect, 1e-12 * (std::fabs(expect) + 1e-3), tag + ":inflow-energy",
						what + fmt(": dof %zu direction %zu T %.4g gamma %.4g hit %d", i, a, T_in, gamma, int(a > 0 && p.hit)))) return;
			}
		seen_n(n * Q);
	}
	if (kind == K_EQ || kind == K_FO) return;
	// constants stay constants
	for (size_t a = 0; a < Q; a++) f.at(a) = 1.0;
	adv.getSystemMatrix().vmult(f.getFStream(), f0.getFStream()); // keep the operator warm: overwritten below
	for (size_t a = 1; a < Q; a++) f0.at(a) = 1.0;
	adv.getSystemMatrix().vmult(f.getFStream(), f0.getFStream());
	for (size_t a = 1; a < Q; a++)
		for (size_t i = 0; i < n; i++)
			if (!near(f.at(a)(i), 1.0, 1e-8, tag + ":constants", what)) return;
}

// ---------------------------------------------------------------- discontinuous Galerkin
// result of -e.grad u + upwind (or central) face terms at every node, evaluated cell by cell
template<size_t dim> struct DGOracle {
	typedef dealii::Point<dim> P;
	AdvectionOperator<dim>& adv;
	const Spec<dim>& s;
	std::map<dealii::types::global_dof_index, double> mass;
	DGOracle(AdvectionOperator<dim>& a, const Spec<dim>& s_) : adv(a), s(s_) {}
	typedef typename dealii::DoFHandler<dim>::active_cell_iterator It;
	static size_t find(const std::vector<P>& v, const P& x, double tol) {
		size_t r = v.size();
		for (size_t i = 0; i < v.size(); i++) if (v[i].distance(x) < tol) r = i;
		return r;
	}
	void run(const Stencil& st_, const std::vector<dealii::Vector<double> >& u, std::vector<dealii::Vector<double> >& out,
			bool central, std::function<double(const P&, unsigned)> wallu) {
		const auto& fe = *adv.getFe();
		const size_t p1 = fe.degree + 1, N = fe.dofs_per_cell, Q = st_.getQ();
		dealii::QGaussLobatto<dim> quad(p1);
		dealii::QGaussLobatto<dim - 1> fquad(p1);
		dealii::MappingQ1<dim> map;
		dealii::FEValues<dim> v(map, fe, quad, dealii::update_quadrature_points | dealii::update_JxW_values | dealii::update_gradients);
		dealii::FEFaceValues<dim> fv(map, fe, fquad, dealii::update_quadrature_points | dealii::update_JxW_values | dealii::update_normal_vectors);
		std::vector<It> cells;
		std::vector<std::vector<P> > nodes;
		std::vector<std::vector<dealii::types::global_dof_index> > dofs;
		double h = hmin<dim>(*adv.getMesh());
		for (auto it = adv.getDoFHandler()->begin_active(); it != adv.getDoFHandler()->end(); ++it) {
			cells.push_back(it);
			std::vector<P> n;
			for (size_t i = 0; i < N; i++) n.push_back(map.transform_unit_to_real_cell(it, fe.get_unit_support_points()[i]));
			nodes.push_back(n);
			std::vector<dealii::types::global_dof_index> d(N);
			it->get_dof_indices(d);
			dofs.push_back(d);
		}
		const double tol = 1e-7 * h;
		out.assign(Q, dealii::Vector<double>(u[0].size()));
		for (size_t c = 0; c < cells.size(); c++) {
			v.reinit(cells[c]);
			std::vector<size_t> at(N);
			for (size_t i = 0; i < N; i++) {
				at[i] = find(v.get_quadrature_points(), nodes[c][i], tol);
				mass[dofs[c][i]] = v.JxW(at[i]);
				for (size_t a = 1; a < Q; a++) {
					double g = 0;
					for (size_t j = 0; j < N; j++)
						for (size_t d = 0; d < dim; d++)
							g += st_.getDirection(a)(d) * v.shape_grad(j, at[i])[d] * u[a](dofs[c][j]);
					out[a](dofs[c][i]) -= g;
				}
			}
			for (unsigned f = 0; f < dealii::GeometryInfo<dim>::faces_per_cell; f++) {
				fv.reinit(cells[c], f);
				bool wall = false;
				size_t nb = cells.size();
				dealii::Tensor<1, dim> shift;
				P centre = cells[c]->face(f)->center();
				if (cells[c]->at_boundary(f)) {
					size_t id = cells[c]->face(f)->boundary_id(), d = id / 2;
					if (!s.periodic[d]) wall = true;
					else {
						shift = (id % 2 ? -1.0 : 1.0) * s.lattice(d);
						for (size_t k = 0; k < cells.size(); k++)
							for (unsigned g = 0; g < dealii::GeometryInfo<dim>::faces_per_cell; g++)
								if (cells[k]->at_boundary(g) && cells[k]->face(g)->boundary_id() == (id ^ 1)
										&& P(cells[k]->face(g)->center()).distance(P(centre + shift)) < tol) nb = k;
					}
				} else
					for (size_t k = 0; k < cells.size(); k++)
						if (k != c)
							for (unsigned g = 0; g < dealii::GeometryInfo<dim>::faces_per_cell; g++)
								if (!cells[k]->at_boundary(g) && P(cells[k]->face(g)->center()).distance(centre) < tol) nb = k;
				if (!wall && nb == cells.size()) throw std::runtime_error("oracle found no neighbour");
				for (unsigned q = 0; q < fv.n_quadrature_points; q++) {
					P x = fv.quadrature_point(q);
					size_t i = find(nodes[c], x, tol);
					size_t j = wall ? 0 : find(nodes[nb], P(x + shift), tol);
					if (i == N || j == N) throw std::runtime_error("oracle found no node on the face");
					for (size_t a = 1; a < Q; a++) {
						double en = 0, eu = 0;
						for (size_t d = 0; d < dim; d++) {
							en += st_.getDirection(a)(d) * fv.normal_vector(q)[d];
							eu += wall ? st_.getDirection(a)(d) * wallu(x, d) : 0;
						}
						double inner = u[a](dofs[c][i]);
						double outer = wall ? u[st_.getIndexOfOppositeDirection(a)](dofs[c][i])
								+ 2 * st_.getWeight(a) * eu / st_.getSpeedOfSoundSquare() : u[a](dofs[nb][j]);
						double factor = central ? 0.5 : (en < 0 ? 1 : 0);
						out[a](dofs[c][i]) += factor * en * (inner - outer) * fv.JxW(q) / v.JxW(at[i]);
					}
				}
			}
		}
	}
};

template<size_t dim> static void sedg(bool walls) {
	Spec<dim> s = random_spec<dim>(!walls, true, dim == 2 ? 30 : 12);
	if (walls) {
		s.wobble = rng().flip(0.3) ? 0.05 : 0;
		bool any = false;
		for (size_t d = 0; d < dim; d++) any = any || !s.periodic[d];
		if (!any) s.periodic[rng().below(dim)] = false;
		if (s.periodic[1] || s.wobble != 0) s.shear = 0;
	}
	for (size_t d = 0; d < dim; d++)
		if (s.periodic[d] && s.refine == 0 && s.reps[d] < 2) s.reps[d] = 2;
	turn_cells(s);
	if (s.turn) s.turn = 1; // the scheme takes the numbering of the dofs at a face from the first cell
	const StencilInfo* I = rng().pick(pool<dim>(walls ? 27 : 45));
	double scaling = rng().flip(0.5) ? 1.0 : rng().logu(0.1, 10);
	auto st_ = I->make(scaling);
	size_t order = 1 + rng().below(dim == 2 ? 5 : 2);
	bool central = rng().flip(0.2);
	std::array<std::array<double, dim + 1>, dim> W;
	double mag = walls && rng().flip(0.7) ? 0.1 : 0.0;
	for (auto& a : W) for (auto& v : a) v = mag * rng().uni(-1, 1);
	auto wallu = [W](const dealii::Point<dim>& p, unsigned c) {
		double r = W[c][dim];
		for (size_t d = 0; d < dim; d++) r += W[c][d] * p[d];
		return r;
	};
	bool constant_walls = walls && rng().flip(0.4);
	dealii::Tensor<1, dim> cw;
	for (size_t d = 0; d < dim; d++) cw[d] = mag * rng().uni(-1, 1);
	auto wall_fn = [=](const dealii::Point<dim>& p, unsigned c) { return constant_walls ? cw[c] : wallu(p, c); };
	Problem<dim> problem(s, [&](size_t id) -> boost::shared_ptr<Boundary<dim> > {
		if (constant_walls) return boost::make_shared<VelocityNeqBounceBack<dim> >(id, cw);
		return boost::make_shared<VelocityNeqBounceBack<dim> >(id, boost::shared_ptr<dealii::Function<dim> >(
				new Fn<dim>(dim, [=](const dealii::Point<dim>& p, unsigned c, double) { return wallu(p, c); })));
	});
	std::string what = fmt("%s scaling %.4g order %zu central %d constant %d ", I->name, scaling, order, central, constant_walls) + s.str();
	seen(what);
	sample(what);
	SEDGMinLee<dim> adv(problem, order, QGAUSS_LOBATTO, GAUSS_LOBATTO_POINTS, st_, central);
	adv.setupDoFs();
	adv.reassemble();
	const size_t Q = st_->getQ(), n = adv.getNumberOfDoFs();
	DistributionFunctions f(true), r(true);
	f.reinit(Q, adv.getLocallyOwnedDofs(), MPI_COMM_WORLD);
	r.reinit(Q, adv.getLocallyOwnedDofs(), MPI_COMM_WORLD);
	std::vector<dealii::Vector<double> > u(Q, dealii::Vector<double>(n)), want;
	for (size_t a = 0; a < Q; a++)
		for (size_t i = 0; i < n; i++) { u[a](i) = rng().uni(-1, 1); f.at(a)(i) = u[a](i); }
	DGOracle<dim> oracle(adv, s);
	oracle.run(*st_, u, want, central, wall_fn);
	adv.getSystemMatrix().vmult(r.getFStream(), f.getFStream());
	r.getFStream() += adv.getSystemVector();
	const std::string tag = walls ? "sedg-wall" : "sedg";
	double scale_ = 0;
	for (size_t a = 1; a < Q; a++) scale_ = std::max(scale_, want[a].linfty_norm());
	for (size_t a = 1; a < Q; a++) {
		double sum = 0, energy = 0, m = 0;
		for (size_t i = 0; i < n; i++) {
			near(r.at(a)(i), want[a](i), 1e-9 * scale_, tag + (central ? ":central-operator" : ":operator"), what + fmt(": dof %zu direction %zu", i, a));
			double w = oracle.mass[i];
			sum += w * r.at(a)(i);
			energy += w * r.at(a)(i) * u[a](i);
			m += w * std::fabs(r.at(a)(i));
		}
		if (!walls && s.cartesian()) {
			check(std::fabs(sum) < 1e-9 * m, tag + ":mass-not-conserved", what + fmt(": direction %zu total %.3g of %.3g", a, sum, m));
			check(energy < 1e-9 * m, tag + ":energy-grows", what + fmt(": direction %zu %.3g", a, energy));
		}
	}
	seen_n(n * (Q - 1));
	metric("nodes", n);
	// constants are at rest
	for (size_t a = 0; a < Q; a++) f.at(a) = 1.7;
	adv.getSystemMatrix().vmult(r.getFStream(), f.getFStream());
	for (size_t a = 1; a < Q; a++)
		for (size_t i = 0; i < n; i++)
			if (!near(r.at(a)(i), 0.0, 1e-8 * scale_, tag + ":constants", what)) return;
}

// a scheme that would need a mass matrix solve is refused
static void sedg_refusals() {
	Spec<2> s;
	for (auto q : { QGAUSS_LOBATTO, QGAUSS })
		for (auto p : { GAUSS_LOBATTO_POINTS, GAUSS_CHEBYSHEV_POINTS, GAUSS_LOBATTO_CHEBYSHEV_POINTS, EQUIDISTANT_POINTS }) {
			Problem<2> problem(s);
			bool refused = false;
			try { SEDGMinLee<2> adv(problem, 2, q, p, boost::make_shared<D2Q9>(1.0), false); }
			catch (AdvectionSolverException&) { refused = true; }
			seen(fmt("refusal %d %d", q, p));
			check(refused == !(q == QGAUSS_LOBATTO && p == GAUSS_LOBATTO_POINTS), "sedg:refusal", fmt("quadrature %d points %d refused %d", q, p, refused));
		}
}

// ---------------------------------------------------------------- periodic pairing
template<size_t dim> static void pairing() {
	Spec<dim> s = random_spec<dim>(false, true, 64);
	bool any = false;
	for (size_t d = 0; d < dim; d++) any = any || s.periodic[d];
	if (!any) s.periodic[rng().below(dim)] = true;
	if (s.periodic[1]) s.shear = 0;
	for (size_t d = 0; d < dim; d++) if (s.periodic[d] && s.refine == 0 && s.reps[d] < 2) s.reps[d] = 2;
	turn_cells(s);
	Problem<dim> problem(s);
	std::string what = s.str();
	seen(what);
	sample(what);
	check(problem.checkBoundaryConditions(), "pairing:boundary-ids", what);
	auto adv = SemiLagrangian<dim>(problem, 1, boost::make_shared<typename std::conditional<dim == 2, D2Q9, D3Q19>::type>(1.0), 0.001);
	adv.setupDoFs();
	auto& bc = *problem.getBoundaries();
	double h = hmin<dim>(*problem.getMesh());
	size_t np = 0;
	for (size_t d = 0; d < dim; d++) {
		check(bc.isPeriodic(2 * d) == s.periodic[d] && bc.isPeriodic(2 * d + 1) == s.periodic[d], "pairing:periodic-flag", what);
		if (!s.periodic[d]) continue;
		np += 2;
		auto pb = bc.getPeriodicBoundary(2 * d);
		check(pb == bc.getPeriodicBoundary(2 * d + 1) && pb->getDirection() == d, "pairing:collection", what);
		typedef typename dealii::DoFHandler<dim>::active_cell_iterator It;
		{
			bool refused = false;
			typename dealii::DoFHandler<dim>::cell_iterator n;
			It c = adv.getDoFHandler()->begin_active();
			try { pb->getOppositeCellAtPeriodicBoundary(c, n); } catch (PeriodicBoundaryNotPossible&) { refused = true; }
			check(refused, "pairing:use-before-setup", what);
		}
		pb->createCellMap(*adv.getDoFHandler());
		size_t faces = 0;
		for (It c = adv.getDoFHandler()->begin_active(); c != adv.getDoFHandler()->end(); ++c) {
			bool at = false;
			for (unsigned f = 0; f < dealii::GeometryInfo<dim>::faces_per_cell; f++) {
				bool mine = c->at_boundary(f) && c->face(f)->boundary_id() / 2 == d;
				if (c->at_boundary(f)) check(pb->isFaceInBoundary(c, f) == mine, "pairing:face-in-boundary", what);
				if (!mine) continue;
				at = true;
				faces++;
				typename dealii::DoFHandler<dim>::cell_iterator n;
				size_t g = pb->getOppositeCellAtPeriodicBoundary(c, n);
				size_t id = c->face(f)->boundary_id();
				dealii::Tensor<1, dim> shift = (id % 2 ? -1.0 : 1.0) * s.lattice(d);
				check(g < dealii::GeometryInfo<dim>::faces_per_cell && n->at_boundary(g) && n->face(g)->boundary_id() == (id ^ 1)
						&& dealii::Point<dim>(n->face(g)->center()).distance(dealii::Point<dim>(c->face(f)->center() + shift)) < 1e-8 * h,
						"pairing:opposite-cell", what + fmt(": boundary %zu", id));
				It na(n);
				typename dealii::DoFHandler<dim>::cell_iterator back;
				size_t f2 = pb->getOppositeCellAtPeriodicBoundary(na, back);
				check(f2 == f && It(back) == c, "pairing:involution", what + fmt(": boundary %zu", id));
				for (int k = 0; k < 4; k++) {
					dealii::Point<dim> x = c->center();
					for (size_t j = 0; j < dim; j++) x[j] += h * rng().uni(-2, 2);
					auto y = pb->coordinatesAcrossPeriodicBoundary(x, c);
					check(y.distance(dealii::Point<dim>(x + shift)) < 1e-9 * (1 + y.norm()), "pairing:coordinates", what);
					check(pb->coordinatesAcrossPeriodicBoundary(y, na).distance(x) < 1e-9 * (1 + y.norm()), "pairing:coordinates-back", what);
				}
				seen_n(1);
			}
			if (!at) {
				bool refused = false;
				typename dealii::DoFHandler<dim>::cell_iterator n;
				try { pb->getOppositeCellAtPeriodicBoundary(c, n); } catch (PeriodicBoundaryNotPossible&) { refused = true; }
				check(refused, "pairing:inner-cell-has-partner", what);
			}
		}
		check(faces > 1, "pairing:no-faces", what);
	}
	check(bc.numberOfPeriodicBoundaries() == np && bc.numberOfBoundaries() == 2 * dim, "pairing:counts", what);
	for (size_t id = 2 * dim; id < 2 * dim + 3; id++) {
		bool refused = false;
		try { bc.getBoundary(id); } catch (BoundaryCollectionException&) { refused = true; }
		check(refused && !bc.hasID(id), "pairing:unknown-id", what);
	}
	// no boundary can be given twice, equal ids and refined meshes are refused
	for (int k = 0; k < 2; k++) {
		Spec<dim> t = s;
		t.periodic.fill(false);
		Problem<dim> p(t, typename Problem<dim>::WallMaker(), k == 1);
		if (k == 1 && p.getMesh()->n_levels() < 2) continue;
		bool refused = false;
		try { PeriodicBoundary<dim> b(0, k == 1 ? 1 : 0, 0, p.getMesh()); } catch (PeriodicBoundaryNotPossible&) { refused = true; }
		check(refused, "pairing:accepted", fmt("kind %d ", k) + what);
	}
	if (np) {
		bool refused = false;
		size_t d = 0;
		while (!s.periodic[d]) d++;
		// the map follows the dof handler it is created for
		auto pb = bc.getPeriodicBoundary(2 * d);
		auto other = SemiLagrangian<dim>(problem, 2, boost::make_shared<typename std::conditional<dim == 2, D2Q9, D3Q19>::type>(1.0), 0.001);
		other.setupDoFs();
		pb->createCellMap(*other.getDoFHandler());
		for (typename dealii::DoFHandler<dim>::active_cell_iterator c = other.getDoFHandler()->begin_active(); c != other.getDoFHandler()->end(); ++c)
			for (unsigned f = 0; f < dealii::GeometryInfo<dim>::faces_per_cell; f++)
				if (c->at_boundary(f) && c->face(f)->boundary_id() / 2 == d) {
					typename dealii::DoFHandler<dim>::cell_iterator n;
					try {
						pb->getOppositeCellAtPeriodicBoundary(c, n);
						check(&n->get_dof_handler() == other.getDoFHandler().get(), "pairing:second-dof-handler", what);
					} catch (std::exception& e) {
						check(false, "pairing:second-dof-handler", what + e.what());
					}
				}
		try { bc.addBoundary(bc.getPeriodicBoundary(2 * d)); } catch (BoundaryCollectionException&) { refused = true; }
		check(refused, "pairing:added-twice", what);
	}
}

void vh_cases(Suite& S) {
	S.push_back({ "advection sedg refusals", sedg_refusals });
	for (int k = 0; k < int(scale(24, 300)); k++) {
		S.push_back({ fmt("advection sl 2D %d", k), [] { for (int j = 0; j < 3; j++) sl<2>(K_NONE); } });
		S.push_back({ fmt("advection sl 3D %d", k), [] { sl<3>(K_NONE); } });
		S.push_back({ fmt("wall sl 2D %d", k), [] { for (int j = 0; j < 3; j++) sl<2>(rng().flip(0.8) ? K_NEQ : K_FO); } });
		S.push_back({ fmt("wall sl 3D %d", k), [] { sl<3>(rng().flip(0.8) ? K_NEQ : K_FO); } });
		S.push_back({ fmt("open sl 2D %d", k), [k] { for (int j = 0; j < 2; j++) sl<2>(k % 2 ? K_EQ : K_DN); } });
		S.push_back({ fmt("open sl 3D %d", k), [k] { sl<3>(k % 2 ? K_EQ : K_DN); } });
		S.push_back({ fmt("pairing 2D %d", k), [] { for (int j = 0; j < 4; j++) pairing<2>(); } });
		S.push_back({ fmt("pairing 3D %d", k), [] { pairing<3>(); } });
		S.push_back({ fmt("advection sedg 2D %d", k), [] { for (int j = 0; j < 3; j++) sedg<2>(false); } });
		S.push_back({ fmt("advection sedg 3D %d", k), [] { sedg<3>(false); } });
		S.push_back({ fmt("wall sedg 2D %d", k), [] { for (int j = 0; j < 3; j++) sedg<2>(true); } });
		S.push_back({ fmt("wall sedg 3D %d", k), [] { sedg<3>(true); } });
	}
}

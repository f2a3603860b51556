// C12: time integrators against closed formulas, the exact solution of df/dt = A f + b and each other
#include "vh.h"
#include "natrium/timeintegration/RungeKutta5LowStorage.h"
#include "natrium/timeintegration/ThetaMethod.h"
#include "natrium/timeintegration/ExponentialTimeIntegrator.h"
#include "natrium/timeintegration/DealIIWrapper.h"
#include "natrium/utilities/SemiParallelMatrix.h"
#include "natrium/utilities/Math.h"
using namespace vh;
using namespace natrium;

typedef std::vector<long double> V;
typedef std::vector<V> M;
static V mv(const M& A, const V& x) { V y(A.size(), 0); for (size_t i = 0; i < A.size(); i++) for (size_t j = 0; j < x.size(); j++) y[i] += A[i][j] * x[j]; return y; }
static M mm(const M& A, const M& B) { size_t n = A.size(); M C(n, V(n, 0)); for (size_t i = 0; i < n; i++) for (size_t k = 0; k < n; k++) for (size_t j = 0; j < n; j++) C[i][j] += A[i][k] * B[k][j]; return C; }
static V axpy(V a, long double s, const V& b) { for (size_t i = 0; i < a.size(); i++) a[i] += s * b[i]; return a; }
static double norm(const V& a) { long double s = 0; for (auto x : a) s += x * x; return std::sqrt((double) s); }
static double dist(const V& a, const V& b) { return norm(axpy(a, -1, b)); }
static V solve(M A, V b) {
	size_t n = b.size();
	for (size_t k = 0; k < n; k++) {
		size_t p = k;
		for (size_t i = k; i < n; i++) if (std::fabs(A[i][k]) > std::fabs(A[p][k])) p = i;
		std::swap(A[p], A[k]); std::swap(b[p], b[k]);
		for (size_t i = k + 1; i < n; i++) {
			long double f = A[i][k] / A[k][k];
			for (size_t j = k; j < n; j++) A[i][j] -= f * A[k][j];
			b[i] -= f * b[k];
		}
	}
	for (size_t k = n; k-- > 0;) { for (size_t j = k + 1; j < n; j++) b[k] -= A[k][j] * b[j]; b[k] /= A[k][k]; }
	return b;
}
struct Ode {
	M A; V b, f;
	size_t n() const { return f.size(); }
	double normA() const { double m = 0; for (auto& r : A) { double s = 0; for (auto x : r) s += std::fabs((double) x); m = std::max(m, s); } return m; }
	V rhs(const V& y) const { return axpy(mv(A, y), 1, b); }
	V exact(const V& y, double t) const { // exp of the augmented matrix, scaling and squaring
		size_t m = n() + 1;
		M B(m, V(m, 0)), E(m, V(m, 0)), T;
		int s = std::max(0, (int) std::ceil(std::log2(std::max(1e-30, normA() * t))) + 4);
		for (size_t i = 0; i < n(); i++) { for (size_t j = 0; j < n(); j++) B[i][j] = A[i][j] * t / std::pow(2.0L, s); B[i][n()] = b[i] * t / std::pow(2.0L, s); }
		for (size_t i = 0; i < m; i++) E[i][i] = 1;
		T = E;
		for (int k = 1; k < 20; k++) { T = mm(T, B); for (auto& r : T) for (auto& x : r) x /= k; for (size_t i = 0; i < m; i++) for (size_t j = 0; j < m; j++) E[i][j] += T[i][j]; }
		for (int k = 0; k < s; k++) E = mm(E, E);
		V z = y; z.push_back(1);
		z = mv(E, z); z.pop_back();
		return z;
	}
};
static Ode random_ode(size_t n, int kind) {
	Ode o;
	o.A.assign(n, V(n, 0)); o.b.assign(n, 0); o.f.assign(n, 0);
	double rate = rng().logu(0.1, 10);
	for (size_t i = 0; i < n; i++) {
		for (size_t j = 0; j < n; j++) {
			double r = rng().uni(-1, 1);
			if (kind == 0) o.A[i][j] = rate * r;                         // dense
			else if (kind == 1 && (i == j || j == (i + 1) % n || i == (j + 1) % n)) o.A[i][j] = rate * r; // sparse, cyclic
			else if (kind == 2 && i == j) o.A[i][j] = -rate * rng().uni(0.2, 1); // diagonal
			else if (kind == 3 && n > 1) { if (i == j) o.A[i][j] -= rate; if (j == (i + n - 1) % n) o.A[i][j] += rate; } // upwind advection, singular
		}
		o.f[i] = rng().uni(-1, 1);
		o.b[i] = rng().flip(0.7) ? rng().uni(-1, 1) : 0;
	}
	if (rng().flip(0.3)) o.b.assign(n, 0);
	return o;
}

// the four kinds of linear algebra
template<class MAT, class VEC> struct LA;
static dealii::DynamicSparsityPattern full(size_t n) { dealii::DynamicSparsityPattern d(n, n); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) d.add(i, j); return d; }
static dealii::TrilinosWrappers::SparsityPattern tfull(size_t n) {
	auto s = dealii::complete_index_set(n);
	dealii::TrilinosWrappers::SparsityPattern d(s, s, MPI_COMM_WORLD, n);
	for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) d.add(i, j);
	d.compress();
	return d;
}
template<> struct LA<sparse_matrix, numeric_vector> {
	static const char* name() { return "serial"; }
	dealii::SparsityPattern sp; sparse_matrix A; numeric_vector f, b;
	LA(const Ode& o, size_t) : f(o.n()), b(o.n()) { sp.copy_from(full(o.n())); A.reinit(sp); }
	void compress() {}
};
template<> struct LA<sparse_block_matrix, block_vector> {
	static const char* name() { return "serial-block"; }
	dealii::BlockSparsityPattern sp; sparse_block_matrix A; block_vector f, b;
	LA(const Ode& o, size_t B) : f(B, o.n() / B), b(B, o.n() / B) {
		dealii::BlockDynamicSparsityPattern d(B, B);
		for (size_t i = 0; i < B; i++) for (size_t j = 0; j < B; j++) { d.block(i, j).reinit(o.n() / B, o.n() / B); }
		d.collect_sizes();
		for (size_t i = 0; i < o.n(); i++) for (size_t j = 0; j < o.n(); j++) d.add(i, j);
		sp.copy_from(d); A.reinit(sp);
	}
	void compress() {}
};
template<> struct LA<distributed_sparse_matrix, distributed_vector> {
	static const char* name() { return "distributed"; }
	distributed_sparse_matrix A; distributed_vector f, b;
	LA(const Ode& o, size_t) { auto s = dealii::complete_index_set(o.n()); A.reinit(tfull(o.n())); f.reinit(s, MPI_COMM_WORLD); b.reinit(s, MPI_COMM_WORLD); }
	void compress() { A.compress(dealii::VectorOperation::insert); f.compress(dealii::VectorOperation::insert); b.compress(dealii::VectorOperation::insert); }
};
template<> struct LA<distributed_sparse_block_matrix, distributed_block_vector> {
	static const char* name() { return "distributed-block"; }
	distributed_sparse_block_matrix A; distributed_block_vector f, b;
	LA(const Ode& o, size_t B) : f(B), b(B) {
		auto s = dealii::complete_index_set(o.n() / B);
		A.reinit(B, B);
		for (size_t i = 0; i < B; i++) {
			for (size_t j = 0; j < B; j++) A.block(i, j).reinit(tfull(o.n() / B));
			f.block(i).reinit(s, MPI_COMM_WORLD); b.block(i).reinit(s, MPI_COMM_WORLD);
		}
		A.collect_sizes(); f.collect_sizes(); b.collect_sizes();
	}
	void compress() { A.compress(dealii::VectorOperation::insert); f.compress(dealii::VectorOperation::insert); b.compress(dealii::VectorOperation::insert); }
};
template<class L> static void put(L& l, const Ode& o) {
	for (size_t i = 0; i < o.n(); i++) { l.f(i) = (double) o.f[i]; l.b(i) = (double) o.b[i]; for (size_t j = 0; j < o.n(); j++) l.A.set(i, j, (double) o.A[i][j]); }
	l.compress();
}
template<class VEC> static V get(const VEC& f) { V v(f.size()); for (size_t i = 0; i < v.size(); i++) v[i] = (double) f(i); return v; }

struct Scheme { std::string name; int order; double theta; int deal; double tol; };
static std::vector<Scheme> schemes() {
	return {{"rk5", 4, 0, -1, 1e-12}, {"theta", 0, 0.5, -1, 3e-6}, {"exponential", 5, 0, -1, 1e-12},
		{"euler", 1, 0, FORWARD_EULER, 1e-12}, {"rk3", 3, 0, RK_THIRD_ORDER, 1e-12}, {"rk4", 4, 0, RK_CLASSIC_FOURTH_ORDER, 1e-12},
		{"backward-euler", 1, 1, BACKWARD_EULER, 3e-6}, {"midpoint", 2, 0.5, IMPLICIT_MIDPOINT, 3e-6}, {"crank-nicolson", 2, 0.5, CRANK_NICOLSON, 3e-6},
		{"sdirk", 2, 0, SDIRK_TWO_STAGES, 1e-5}, {"heun-euler", 2, 0, HEUN_EULER, 1e-12}, {"bogacki", 3, 0, BOGACKI_SHAMPINE, 1e-12},
		{"dopri", 5, 0, DOPRI, 1e-12}, {"fehlberg", 5, 0, FEHLBERG, 1e-12}, {"cash-karp", 5, 0, CASH_KARP, 1e-12}};
}
template<class MAT, class VEC> static boost::shared_ptr<TimeIntegrator<MAT, VEC> > make(const Scheme& s, double dt, const VEC& proto, double theta, DealSolverName ls, bool fixed_step) {
	if (s.name == "rk5") return boost::make_shared<RungeKutta5LowStorage<MAT, VEC> >(dt, proto);
	if (s.name == "theta") return boost::make_shared<ThetaMethod<MAT, VEC> >(dt, proto, theta);
	return boost::shared_ptr<TimeIntegrator<MAT, VEC> >();
}
template<class MAT, class VEC> struct MakeExp { static boost::shared_ptr<TimeIntegrator<MAT, VEC> > make(double dt, size_t) { return boost::make_shared<ExponentialTimeIntegrator<MAT, VEC> >(dt); } };
template<class T> struct IsBlock { static const bool v = false; };
template<> struct MakeExp<sparse_block_matrix, block_vector> { static boost::shared_ptr<TimeIntegrator<sparse_block_matrix, block_vector> > make(double dt, size_t B) { return boost::make_shared<ExponentialTimeIntegrator<sparse_block_matrix, block_vector> >(dt, B); } };
template<> struct MakeExp<distributed_sparse_block_matrix, distributed_block_vector> { static boost::shared_ptr<TimeIntegrator<distributed_sparse_block_matrix, distributed_block_vector> > make(double dt, size_t B) { return boost::make_shared<ExponentialTimeIntegrator<distributed_sparse_block_matrix, distributed_block_vector> >(dt, B); } };

static V theta_step(const Ode& o, const V& y, double dt, double th) {
	size_t n = o.n();
	M L(n, V(n, 0));
	for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) L[i][j] = (i == j ? 1.0L : 0.0L) - th * dt * o.A[i][j];
	V r = axpy(axpy(y, (1 - th) * dt, mv(o.A, y)), dt, o.b);
	return solve(L, r);
}
static V taylor_step(const Ode& o, const V& y, double dt, int p) {
	V k = o.rhs(y), r = y;
	long double c = dt;
	for (int i = 1; i <= p; i++) { r = axpy(r, c, k); k = mv(o.A, k); c *= dt / (i + 1.0L); }
	return r;
}
static V lowstorage_step(const Ode& o, const V& y, double dt) { // Carpenter and Kennedy 1994, solution 3
	const long double a[5] = { 0, -567301805773.0L / 1357537059087.0L, -2404267990393.0L / 2016746695238.0L, -3550918686646.0L / 2091501179385.0L, -1275806237668.0L / 842570457699.0L };
	const long double b[5] = { 1432997174477.0L / 9575080441755.0L, 5161836677717.0L / 13612068292357.0L, 1720146321549.0L / 2090206949498.0L, 3134564353537.0L / 4481467310338.0L, 2277821191437.0L / 14882151754819.0L };
	V f = y, d(y.size(), 0);
	for (int s = 0; s < 5; s++) {
		V k = o.rhs(f);
		for (size_t i = 0; i < d.size(); i++) d[i] = a[s] * d[i] + dt * k[i];
		f = axpy(f, b[s], d);
	}
	return f;
}

template<class MAT, class VEC> static void one(const Scheme& s, bool tiny = false) {
	typedef LA<MAT, VEC> L;
	size_t B = 1 + rng().below(4), n = B * (1 + rng().below(4));
	int kind = rng().below(4);
	bool implicit = s.tol > 1e-7;
	const bool small = tiny && s.name == "exponential"; // Krylov space exhausted
	if (s.name == "exponential") { n = B * (8 / B + 1 + rng().below(3)); if (tiny) { n = B = 1 + rng().below(3); kind = 2 + rng().below(2); } else kind = rng().below(2); }
	Ode o = random_ode(n, kind);
	double dt = rng().logu(0.01, 0.4) / std::max(1e-9, o.normA());
	double theta = rng().flip(0.3) ? rng().pick(std::vector<double> { 0, 0.5, 1 }) : rng().uni();
	std::vector<DealSolverName> lin = { BICGSTAB, GMRES, FGMRES };
	DealSolverName ls = rng().pick(lin);
	L l(o, B);
	put(l, o);
	bool other_dt = rng().flip(0.3); // the step size of the constructor is replaced
	double dt0 = other_dt ? dt * rng().uni(0.3, 3) : dt;
	boost::shared_ptr<TimeIntegrator<MAT, VEC> > ti;
	bool embedded = s.deal >= 7;
	bool five = s.deal < 0;
	double rt = 0, ct = 0, mind = dt * 1e-6, maxd = dt * 1e6, coarsen = 1.3, refine = 0.7;
	if (five) ti = s.name == "exponential" ? MakeExp<MAT, VEC>::make(dt0, B) : make<MAT, VEC>(s, dt0, l.f, theta, ls, true);
	else if (!embedded) ti = boost::make_shared<DealIIWrapper<MAT, VEC> >(dt0, (DealIntegratorName) s.deal, ls);
	else {
		// with a generous tolerance the step is taken as asked for
		bool adapt = rng().flip(0.4);
		rt = adapt ? rng().logu(1e-9, 1e-5) : 1e30;
		ct = adapt ? rt * 0.01 : 0;
		ti = boost::make_shared<DealIIWrapper<MAT, VEC> >(dt0, (DealIntegratorName) s.deal, ls, coarsen, refine, mind, maxd, rt, ct);
	}
	std::string key = s.name + (small ? "-breakdown" : ""), at = fmt("%s n=%zu blocks=%zu kind=%d dt*A=%.3g theta=%.3g solver=%d", L::name(), n, B, kind, dt * o.normA(), theta, (int) ls);
	size_t steps = 1 + rng().below(4);
	bool disturb = rng().flip(0.5); // the state is changed between the steps, as by a collision
	V y = o.f;
	double t = rng().uni(0, 5);
	double x = dt * o.normA(), size = norm(y) + norm(o.b) * dt * steps + 1e-3;
	for (size_t k = 0; k < steps; k++) {
		bool by_default = !other_dt && rng().flip(0.3);
		double tn = ti->step(l.f, l.A, l.b, t, by_default ? 0.0 : dt);
		double used = tn - t;
		V got = get(l.f);
		if (embedded && rt < 1e29) {
			used = used > 0 ? used : dt;
			check(tn > t && used <= dt * (1 + 1e-12), "step-size:" + key, at + fmt(" used %g of %g", used, dt));
		} else near(tn, t + dt, 1e-14 * (1 + std::fabs(t)) , "time:" + key, at);
		double du = used;
		if (embedded && rt < 1e29) { // recover the exact step from the sequence dt, refine dt, ...
			double c = dt;
			while (c > used * (1 + 1e-6)) c *= refine;
			du = std::max(c, mind);
		}
		double xx = du * o.normA();
		double tol = s.tol * size * (1 + k) * 4;
		V ex = o.exact(y, du);
		if (s.name == "rk5") { V w = lowstorage_step(o, y, du); check(dist(got, w) <= tol, "formula:" + key, at + fmt(" step %zu difference %.3g of %.3g", k, dist(got, w), size)); }
		if (s.name == "theta" || s.theta > 0) { double th = s.name == "theta" ? theta : s.theta; V w = theta_step(o, y, du, th); check(dist(got, w) <= tol, "formula:" + key, at + fmt(" step %zu difference %.3g of %.3g", k, dist(got, w), size)); }
		if (!five && s.deal < 3) { V w = taylor_step(o, y, du, s.order); check(dist(got, w) <= tol, "formula:" + key, at + fmt(" step %zu difference %.3g of %.3g", k, dist(got, w), size)); }
		// the exact solution up to the order of the scheme
		if (s.order) {
			double e = 2 * std::sqrt(n) * std::pow(xx, s.order) * norm(o.rhs(y)) * du + tol;
			check(dist(got, ex) <= e, "order:" + key, at + fmt(" step %zu error %.3g, bound %.3g", k, dist(got, ex), e));
			metric_max("error/bound " + key, dist(got, ex) / e);
		}
		for (auto v : got) if (!std::isfinite((double) v)) { violation("finite:" + key, at); break; }
		// b and A are inputs
		for (size_t i = 0; i < n; i++) check((double) l.b(i) == (double) o.b[i], "input-changed:" + key, at);
		metric("steps " + s.name);
		seen_n(n);
		t = tn; y = got;
		if (disturb) {
			for (size_t i = 0; i < n; i++) { y[i] += rng().uni(-0.3, 0.3); l.f(i) = (double) y[i]; y[i] = (double) y[i]; }
			l.compress();
		}
	}
	seen(at);
	sample(s.name + " " + at);
	// a stationary state stays
	Ode z = o;
	if (rng().flip(0.5)) { z.f.assign(n, 0); z.b.assign(n, 0); }
	else if (kind == 3) { z.f.assign(n, 0.5); z.b.assign(n, 0); }
	else { for (auto& c : z.f) c = std::ldexp(std::round(std::ldexp((double) c, 4)), -4); V r = mv(z.A, z.f); for (size_t i = 0; i < n; i++) z.b[i] = -r[i]; }
	put(l, z);
	if (!embedded) {
		bool ok = true;
		try { ti->step(l.f, l.A, l.b, 0, dt); } catch (std::exception& e) { ok = false; violation("stationary-exception:" + key, at + " " + std::string(e.what()).substr(0, 200)); }
		if (ok) check(dist(get(l.f), z.f) <= s.tol * 10 * (norm(z.f) + 1e-3), "stationary:" + key, at + fmt(" moved by %.3g", dist(get(l.f), z.f)));
		seen_n(1);
	}
}

// a stage kept from the last step is only valid if the state has not been changed since
template<class MAT, class VEC> static void fsal(const Scheme& s) {
	Ode o = random_ode(4, 0);
	double dt = 0.1 / o.normA();
	LA<MAT, VEC> l(o, 1);
	put(l, o);
	DealIIWrapper<MAT, VEC> ti(dt, (DealIntegratorName) s.deal, BICGSTAB, 1.3, 0.7, dt * 1e-6, dt * 1e6, 1e30, 0);
	ti.step(l.f, l.A, l.b, 0, dt);
	V y = get(l.f);
	for (size_t i = 0; i < 4; i++) { y[i] += rng().uni(0.2, 0.5); l.f(i) = (double) y[i]; y[i] = (double) y[i]; }
	l.compress();
	ti.step(l.f, l.A, l.b, dt, dt);
	double e = 3 * std::pow(0.1, s.order + 1) * (norm(y) + 1);
	check(dist(get(l.f), o.exact(y, dt)) <= e, "state-changed-between-steps:" + s.name, fmt("error %.3g, bound %.3g", dist(get(l.f), o.exact(y, dt)), e));
	seen(fmt("fsal %s %.17g", s.name.c_str(), dt));
}

static void columns() {
	for (size_t k = 0; k < scale(60, 600); k++) {
		size_t n = 1 + rng().below(8), m = 1 + rng().below(8);
		numeric_vector p(n);
		SemiParallelMatrix<numeric_vector> S(p, m);
		std::vector<std::vector<double> > R(n, std::vector<double>(m, 0));
		for (size_t i = 0; i < n; i++) for (size_t j = 0; j < m; j++) check(S(i, j) == 0, "columns:init", "");
		for (int q = 0; q < 20; q++) {
			size_t i = rng().below(n), j = rng().below(m);
			double v = rng().uni(-1, 1);
			switch (rng().below(3)) {
			case 0: S.set(i, j, v); R[i][j] = v; break;
			case 1: { numeric_vector c(n); for (size_t r = 0; r < n; r++) R[r][j] = c(r) = rng().uni(-1, 1); S.setColumn(j, c); break; }
			default: S.column(j) *= v; for (size_t r = 0; r < n; r++) R[r][j] *= v;
			}
		}
		numeric_vector x(m), y(n), c(n);
		for (size_t j = 0; j < m; j++) x(j) = rng().uni(-1, 1);
		S.vmult(y, x);
		for (size_t i = 0; i < n; i++) {
			double s = 0;
			for (size_t j = 0; j < m; j++) { s += R[i][j] * x(j); check(S(i, j) == R[i][j], "columns:entry", ""); }
			near(y(i), s, 1e-13, "columns:vmult");
		}
		size_t j = rng().below(m);
		S.getColumn(j, c);
		for (size_t i = 0; i < n; i++) check(c(i) == R[i][j], "columns:getColumn", "");
		seen(fmt("columns %zu %zu %zu", n, m, k));
	}
}

void vh_cases(Suite& s) {
	for (const Scheme& c : schemes())
		for (size_t k = 0; k < scale(2, 8); k++) {
			s.push_back( { c.name + fmt(" serial %zu", k), [c] { for (size_t r = 0; r < scale(40, 400); r++) one<sparse_matrix, numeric_vector>(c); } });
			s.push_back( { c.name + fmt(" serial-block %zu", k), [c] { for (size_t r = 0; r < scale(40, 400); r++) one<sparse_block_matrix, block_vector>(c); } });
			s.push_back( { c.name + fmt(" distributed %zu", k), [c] { for (size_t r = 0; r < scale(20, 200); r++) one<distributed_sparse_matrix, distributed_vector>(c); } });
			s.push_back( { c.name + fmt(" distributed-block %zu", k), [c] { for (size_t r = 0; r < scale(20, 200); r++) one<distributed_sparse_block_matrix, distributed_block_vector>(c); } });
		}
	for (const Scheme& c : schemes()) if (c.deal >= 7) s.push_back( { "changed state " + c.name, [c] { for (size_t r = 0; r < 10; r++) fsal<distributed_sparse_block_matrix, distributed_block_vector>(c); } });
	for (const Scheme& c : schemes()) if (c.name == "exponential") s.push_back( { "exponential breakdown", [c] { for (size_t r = 0; r < 40; r++) one<sparse_matrix, numeric_vector>(c, true); } });
	s.push_back( { "columns", columns });
}

// C01: algebra of the discrete velocity sets, for every set and any scaling
#include "stencils.h"
using namespace natrium;
using namespace vh;

// moment of order |a| of a centred Gaussian of variance cs2: product of double factorials
static double gauss(int n, double cs2) {
	if (n % 2) return 0;
	double r = 1;
	for (int k = n - 1; k > 0; k -= 2) r *= k;
	return r * std::pow(cs2, n / 2);
}

static void one(const StencilInfo& I, double scaling) {
	boost::shared_ptr<Stencil> s = I.make(scaling), s1 = I.make(1.0);
	std::string n = I.name;
	const size_t Q = s->getQ(), D = s->getD();
	seen(n + fmt(" %.17g", scaling));
	if (!check(Q == I.q && D == I.d && s->getStencilType() == I.type && s->getDirections().size() == Q
			&& s->getWeights().size() == Q, "identity:" + n, fmt("D=%zu Q=%zu type=%d", D, Q, (int) s->getStencilType())))
		return;
	near(s->getScaling(), scaling, 1e-14 * scaling, "scaling:" + n);
	const double cs2 = s->getSpeedOfSoundSquare();
	near(s->getSpeedOfSound() * s->getSpeedOfSound(), cs2, 1e-12 * cs2, "speed-of-sound-square:" + n);
	near(s->getSpeedOfSound(), s1->getSpeedOfSound() * scaling, 1e-12 * s->getSpeedOfSound(), "speed-of-sound-scales:" + n);
	double emax = 0;
	for (size_t i = 0; i < Q; i++) {
		const numeric_vector& e = s->getDirection(i);
		check(e.size() == D, "direction-size:" + n, fmt("direction %zu", i));
		double m = 0;
		for (size_t k = 0; k < D; k++) {
			near(e(k), s1->getDirection(i)(k) * scaling, 1e-12 * scaling * 10, "directions-scale:" + n, fmt("direction %zu", i));
			check(e(k) == s->getDirections().at(i)(k), "directions-agree:" + n, fmt("direction %zu", i));
			m += e(k) * e(k);
		}
		emax = std::max(emax, std::sqrt(m));
		near(s->getWeight(i), s1->getWeight(i), 1e-15, "weights-independent-of-scaling:" + n, fmt("direction %zu", i));
		check(s->getWeight(i) == s->getWeights().at(i), "weights-agree:" + n, "");
		// opposite direction
		size_t o = s->getIndexOfOppositeDirection(i);
		if (check(o < Q, "opposite-range:" + n, fmt("opposite of %zu is %zu", i, o))) {
			check(s->getIndexOfOppositeDirection(o) == i, "opposite-involution:" + n, fmt("direction %zu -> %zu -> %zu", i, o, s->getIndexOfOppositeDirection(o)));
			double d = 0;
			for (size_t k = 0; k < D; k++) d += std::fabs(e(k) + s->getDirection(o)(k));
			near(d / scaling, 0, 1e-9, "opposite-direction:" + n, fmt("direction %zu and %zu", i, o));
			near(s->getWeight(o), s->getWeight(i), 1e-14, "opposite-weight:" + n, fmt("direction %zu and %zu", i, o));
		}
	}
	double z = 0;
	for (size_t k = 0; k < D; k++) z += std::fabs(s->getDirection(0)(k));
	check(z == 0, "rest-direction-first:" + n, "direction 0 is not at rest");
	near(s->getMaxParticleVelocityMagnitude(), emax, 1e-9 * emax, "max-particle-velocity:" + n);
	// distinct directions
	if (Q < 100)
		for (size_t i = 0; i < Q; i++)
			for (size_t j = 0; j < i; j++) {
				double d = 0;
				for (size_t k = 0; k < D; k++) d += std::fabs(s->getDirection(i)(k) - s->getDirection(j)(k));
				check(d > 1e-6 * scaling, "directions-distinct:" + n, fmt("%zu and %zu", i, j));
			}
	// velocity moments of the weights: all multi-indices up to order 9
	int bad = 99;
	for (int a = 0; a <= 9; a++) for (int b = 0; a + b <= 9; b++) for (int c = 0; a + b + c <= (D == 3 ? 9 : a + b); c++) {
		double m = 0, mabs = 0;
		for (size_t i = 0; i < Q; i++) {
			const numeric_vector& e = s->getDirection(i);
			double t = s->getWeight(i) * std::pow(e(0), a) * std::pow(e(1), b) * (D == 3 ? std::pow(e(2), c) : 1);
			m += t; mabs += std::fabs(t);
		}
		double g = gauss(a, cs2) * gauss(b, cs2) * (D == 3 ? gauss(c, cs2) : 1);
		double tol = (Q > 100 ? 1e-6 : 2e-8) * std::max(mabs, std::pow(cs2, 0.5 * (a + b + c)));
		seen_n(1);
		if (!(std::fabs(m - g) <= tol)) bad = std::min(bad, a + b + c);
		if (a + b + c <= I.order)
			near(m, g, tol, fmt("moment-order-%d:", a + b + c) + n, fmt("velocity moment x^%d y^%d z^%d", a, b, c));
	}
	metric_max("first inexact moment order " + n, bad);
	// moment basis
	numeric_matrix M(Q), Mi(Q), P(Q);
	s->getMomentBasis(M);
	s->getInverseMomentBasis(Mi);
	if (check(M.m() == Q && M.n() == Q && Mi.m() == Q && Mi.n() == Q, "moment-basis-size:" + n, "")) {
		M.mmult(P, Mi);
		// judged relative to the rounding error of each product
		double worst = 0;
		for (size_t i = 0; i < Q; i++) for (size_t j = 0; j < Q; j++) {
			double a = 1;
			for (size_t k = 0; k < Q; k++) a += std::fabs(M(i, k) * Mi(k, j));
			double d = std::fabs(P(i, j) - (i == j)) / a;
			if (!(d <= worst)) worst = d;
		}
		metric_max("relative moment basis defect " + n, worst);
		if (scaling == 1) metric_max("relative moment basis defect at 1 " + n, worst);
		if (scaling >= 0.2 && scaling <= 5 && !(worst <= 1e-9)) violation("moment-basis-inverse:" + n, fmt("|M inv(M) - 1| = %g relative to its terms, scaling %g", worst, scaling));
	}
	sample(n + fmt(" scaling %g: cs2=%g, %zu directions", scaling, cs2, Q));
}

void vh_cases(Suite& S) {
	for (const StencilInfo& I : all_stencils()) {
		S.push_back({ std::string("stencil ") + I.name, [&I] {
			std::vector<double> sc = { 1.0, 2.0, 0.5, std::sqrt(3.0), 100.0, 0.01 };
			size_t n = I.q > 100 ? 0 : scale(24, 400);
			for (size_t i = 0; i < n; i++) sc.push_back(rng().logu(1e-3, 1e3));
			if (I.q > 100) sc = { 1.0, 2.0 };
			for (double s : sc) one(I, s);
		} });
	}
}

// independent reference for the lattice's equilibrium: Hermite expansion of the Maxwellian
#pragma once
#include "natrium/stencils/Stencil.h"
#include "vh.h"
struct Lattice {
	size_t q, d;
	double cs2, wtol = 0;
	std::vector<std::vector<double>> e; // unscaled
	std::vector<double> w;
	explicit Lattice(const natrium::Stencil& s) : q(s.getQ()), d(s.getD()) {
		const double sc = s.getScaling();
		cs2 = s.getSpeedOfSoundSquare() / sc / sc;
		e.assign(q, std::vector<double>(d));
		w.resize(q);
		for (size_t i = 0; i < q; i++) {
			w[i] = s.getWeight(i);
			for (size_t j = 0; j < d; j++) e[i][j] = s.getDirection(i)(j) / sc;
		}
	}
	// sum over n <= order of a^(n):H^(n) / (n! cs^2n), temperature T in units of cs2
	double hermite(size_t i, double rho, const std::vector<double>& u, double T, int order) const {
		// one-dimensional recurrences do not mix axes: expand as product over axes per multi-index
		// He_{n+1}(x) = x He_n - cs2 n He_{n-1};  moments a_n of a Gaussian with mean u and variance theta
		const double th = cs2 * (T - 1);
		double H[3][6], A[3][6];
		for (size_t j = 0; j < 3; j++) {
			double x = j < d ? e[i][j] : 0, v = j < d ? u[j] : 0;
			H[j][0] = 1; H[j][1] = x; A[j][0] = 1; A[j][1] = v;
			for (int n = 1; n < order; n++) {
				H[j][n + 1] = x * H[j][n] - cs2 * n * H[j][n - 1];
				A[j][n + 1] = v * A[j][n] + th * n * A[j][n - 1];
			}
		}
		static const double fact[] = { 1, 1, 2, 6, 24, 120 };
		double s = 0;
		for (int a = 0; a <= order; a++) for (int b = 0; a + b <= order; b++) for (int c = 0; a + b + c <= (d == 3 ? order : a + b); c++)
			s += H[0][a] * A[0][a] / fact[a] * H[1][b] * A[1][b] / fact[b] * H[2][c] * A[2][c] / fact[c] / std::pow(cs2, a + b + c);
		return w[i] * rho * s;
	}
};

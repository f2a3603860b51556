// A configurable flow problem on a box-like mesh: repetitions, lengths, refinement, shear or smooth
// distortion, periodic or wall boundaries per coordinate direction.
#pragma once
#include "vh.h"
#include <array>
#include "deal.II/grid/grid_generator.h"
#include "deal.II/grid/grid_tools.h"
#include "deal.II/base/function.h"
#include "natrium/problemdescription/ProblemDescription.h"
#include "natrium/problemdescription/BoundaryCollection.h"
#include "natrium/boundaries/PeriodicBoundary.h"
#include "natrium/boundaries/VelocityNeqBounceBack.h"

namespace box {
using namespace natrium;

// a dealii::Function from a lambda (components, point, time)
template<size_t dim>
struct Fn: public dealii::Function<dim> {
	typedef std::function<double(const dealii::Point<dim>&, unsigned, double)> F;
	F f;
	Fn(unsigned comps, F f_) : dealii::Function<dim>(comps), f(f_) {}
	virtual double value(const dealii::Point<dim>& p, const unsigned int c = 0) const {
		return f(p, c, this->get_time());
	}
	virtual void vector_value(const dealii::Point<dim>& p, dealii::Vector<double>& v) const {
		for (unsigned i = 0; i < v.size(); i++) v(i) = f(p, i, this->get_time());
	}
};

template<size_t dim>
struct Spec {
	std::array<unsigned, dim> reps;
	std::array<double, dim> len;
	std::array<bool, dim> periodic;
	unsigned refine = 0;
	double shear = 0;          // x += shear * y  (only with y... lattice stays a lattice)
	double wobble = 0;         // smooth distortion that vanishes on the boundary
	bool local_refine = false; // refine the first active cell once more
	double viscosity = 0.1;
	int turn = 0;              // local vertex numbering of the cells: 0 standard, 1 the same rotation for all, 2 one for each cell
	unsigned turn_seed = 0;
	bool cartesian() const { return shear == 0 && wobble == 0; }
	Spec() { reps.fill(2); len.fill(1.0); periodic.fill(true); }
	std::string str() const {
		std::string s;
		for (size_t i = 0; i < dim; i++)
			s += vh::fmt("%s%ux%.3g%s", i ? "," : "", reps[i], len[i], periodic[i] ? "p" : "w");
		return s + vh::fmt(" ref%u sh%.3g wo%.3g%s%s", refine, shear, wobble, local_refine ? " local" : "",
				turn ? vh::fmt(" turn%d/%u", turn, turn_seed).c_str() : "");
	}
	double ref_len(size_t d) const { return len[d]; }
	// lattice vector of coordinate direction d
	dealii::Tensor<1, dim> lattice(size_t d) const {
		dealii::Tensor<1, dim> t;
		t[d] = len[d];
		if (d == 1) t[0] += shear * len[1];
		return t;
	}
	// coordinates before shear (valid for wobble == 0)
	dealii::Point<dim> unshear(dealii::Point<dim> p) const {
		p[0] -= shear * p[1];
		return p;
	}
	dealii::Point<dim> map(dealii::Point<dim> p) const {
		dealii::Point<dim> q = p;
		if (wobble != 0) {
			double s = wobble;
			for (size_t i = 0; i < dim; i++) s *= std::sin(M_PI * p[i] / len[i]);
			for (size_t i = 0; i < dim; i++) q[i] += s * len[i] * (i % 2 ? -1 : 1);
		}
		q[0] += shear * p[1];
		return q;
	}
};

template<size_t dim, class Base = ProblemDescription<dim> >
class Problem: public Base {
public:
	Spec<dim> spec;
	static boost::shared_ptr<Mesh<dim> > make(const Spec<dim>& s) {
		auto m = boost::make_shared<Mesh<dim> >(MPI_COMM_WORLD);
		dealii::Point<dim> a, b;
		std::vector<unsigned> r;
		for (size_t i = 0; i < dim; i++) { b[i] = s.len[i]; r.push_back(s.reps[i]); }
		if (s.turn) {
			make_turned(s, *m);
			return m;
		}
		dealii::GridGenerator::subdivided_hyper_rectangle(*m, r, a, b, true);
		return m;
	}
	// the same box, with rotated local vertex numberings
	static void make_turned(const Spec<dim>& s, Mesh<dim>& m) {
		const unsigned nv = 1u << dim;
		// proper rotations of the reference cell as permutations of its vertices
		std::vector<std::vector<unsigned> > rot;
		std::vector<unsigned> ax(dim);
		for (size_t i = 0; i < dim; i++) ax[i] = i;
		do {
			int sign = 1;
			for (size_t i = 0; i < dim; i++) for (size_t j = 0; j < i; j++) if (ax[j] > ax[i]) sign = -sign;
			for (unsigned flip = 0; flip < nv; flip++) {
				if (sign * (__builtin_popcount(flip) % 2 ? -1 : 1) < 0) continue;
				std::vector<unsigned> v(nv);
				for (unsigned k = 0; k < nv; k++) {
					unsigned w = 0;
					for (size_t i = 0; i < dim; i++) if ((k >> i & 1) != (flip >> i & 1)) w |= 1u << ax[i];
					v[k] = w;
				}
				rot.push_back(v);
			}
		} while (std::next_permutation(ax.begin(), ax.end()));
		uint64_t state = s.turn_seed * 2654435761u + 12345;
		auto next = [&]() { state = state * 6364136223846793005ull + 1442695040888963407ull; return size_t(state >> 33) % rot.size(); };
		size_t fixed = next();
		std::array<unsigned, 3> n = { { 1, 1, 1 } };
		for (size_t i = 0; i < dim; i++) n[i] = s.reps[i];
		auto index = [&](unsigned i, unsigned j, unsigned k) { return i + (n[0] + 1) * (j + (n[1] + 1) * k); };
		std::vector<dealii::Point<dim> > vertices((n[0] + 1) * (n[1] + 1) * (dim == 3 ? n[2] + 1 : 1));
		for (unsigned k = 0; k <= (dim == 3 ? n[2] : 0); k++)
			for (unsigned j = 0; j <= n[1]; j++)
				for (unsigned i = 0; i <= n[0]; i++) {
					unsigned c[3] = { i, j, k };
					for (size_t d = 0; d < dim; d++) vertices[index(i, j, k)][d] = s.len[d] * c[d] / s.reps[d];
				}
		std::vector<dealii::CellData<dim> > cells;
		for (unsigned k = 0; k < n[2]; k++)
			for (unsigned j = 0; j < n[1]; j++)
				for (unsigned i = 0; i < n[0]; i++) {
					dealii::CellData<dim> c;
					auto& p = rot[s.turn == 1 ? fixed : next()];
					for (unsigned v = 0; v < nv; v++) {
						unsigned w = p[v];
						c.vertices[v] = index(i + (w & 1), j + (w >> 1 & 1), k + (w >> 2 & 1));
					}
					cells.push_back(c);
				}
		m.create_triangulation(vertices, cells, dealii::SubCellData());
		for (auto c = m.begin_active(); c != m.end(); ++c)
			for (unsigned f = 0; f < dealii::GeometryInfo<dim>::faces_per_cell; f++)
				if (c->at_boundary(f))
					for (size_t d = 0; d < dim; d++) {
						double x = c->face(f)->center()[d];
						if (x < 1e-6 * s.len[d]) c->face(f)->set_boundary_id(2 * d);
						if (x > (1 - 1e-6) * s.len[d]) c->face(f)->set_boundary_id(2 * d + 1);
					}
	}
	typedef std::function<boost::shared_ptr<Boundary<dim> >(size_t id)> WallMaker;
	Problem(const Spec<dim>& s, WallMaker wall = WallMaker(), bool do_refine = true)
			: Base(make(s), s.viscosity, 1.0), spec(s) {
		auto bc = boost::make_shared<BoundaryCollection<dim> >();
		for (size_t d = 0; d < dim; d++) {
			if (s.periodic[d])
				bc->addBoundary(boost::make_shared<PeriodicBoundary<dim> >(2 * d, 2 * d + 1, d, this->getMesh()));
			else
				for (size_t k = 0; k < 2; k++)
					bc->addBoundary(wall ? wall(2 * d + k) :
						boost::shared_ptr<Boundary<dim> >(boost::make_shared<VelocityNeqBounceBack<dim> >(
							2 * d + k, dealii::Tensor<1, dim>())));
		}
		this->setBoundaries(bc);
		if (do_refine) this->refineAndTransform();
	}
	virtual void refine(Mesh<dim>& mesh) {
		mesh.refine_global(spec.refine);
		if (spec.local_refine) {
			for (auto c = mesh.begin_active(); c != mesh.end(); ++c) {
				if (!c->is_locally_owned()) continue;
				bool inner = !c->at_boundary();
				if (inner) { c->set_refine_flag(); break; }
			}
			mesh.execute_coarsening_and_refinement();
		}
	}
	virtual void transform(Mesh<dim>& mesh) {
		if (spec.cartesian()) return;
		Spec<dim> s = spec;
		dealii::GridTools::transform([s](const dealii::Point<dim>& p) { return s.map(p); }, mesh);
	}
	virtual bool isCartesian() { return spec.cartesian() && !spec.turn; } // MappingCartesian needs aligned numberings
	using Base::setInitialRho;
	using Base::setInitialU;
	using Base::setInitialT;
	double uchar = 0.1;
	virtual double getCharacteristicVelocity() const { return uchar; }
};

template<size_t dim>
Spec<dim> random_spec(bool periodic, bool allow_distortion, size_t max_cells) {
	Spec<dim> s;
	auto& r = vh::rng();
	size_t cells;
	do {
		cells = 1;
		for (size_t i = 0; i < dim; i++) {
			s.reps[i] = 1 + r.below(dim == 2 ? 4 : 3);
			s.len[i] = r.flip(0.3) ? 1.0 * s.reps[i] : r.uni(0.4, 3.0);
			s.periodic[i] = periodic || r.flip(0.4);
			cells *= s.reps[i];
		}
		s.refine = r.below(3);
		cells <<= dim * s.refine;
	} while (cells > max_cells || cells < 2);
	if (allow_distortion && r.flip(0.5)) {
		if (!s.periodic[1]) s.shear = r.uni(-0.5, 0.5); // periodic faces have to stay opposite to each other
		else s.wobble = r.uni(0.02, 0.08);
	}
	return s;
}
// another local numbering of the cells' vertices (deal.II needs a common one in 2D)
template<size_t dim>
void turn_cells(Spec<dim>& s) {
	auto& r = vh::rng();
	bool on = r.flip(0.4), each = r.flip(0.5);
	unsigned seed = r.below(1000000);
	if (const char* e = getenv("TURN")) { on = atoi(e) > 0; each = atoi(e) == 2; }
	if (!on) return;
	s.turn = dim == 3 && each ? 2 : 1;
#ifdef DEBUG
	s.turn = 1; // deal.II's debug library refuses p4est's connectivity of periodic faces that are rotated against each other
#endif
	s.turn_seed = seed;
}
} // namespace box

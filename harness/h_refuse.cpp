// C28: problems that contradict themselves are refused before the first step, sound ones are accepted
#include "run.h"
#include "natrium/problemdescription/BoundaryCollection.h"
#include "natrium/boundaries/ThermalBounceBack.h"
using namespace natrium;
using namespace vh;
using namespace sim;

// The box again, but boundary conditions are given one by one and the flaw is chosen by the caller.
template<size_t dim>
struct Plan {
	enum { PERIODIC, WALL, EQ };
	struct Cond { int kind; size_t a, b, dir; };
	std::vector<Cond> conds;
	Spec<dim> spec;
	std::map<size_t, size_t> rename; // mesh ids to new ids
	unsigned refine_before = 0;      // global refinements before the conditions are given
	unsigned refine_after = 0;       // and before the solver is made
	std::string str() const {
		std::string s = spec.str();
		for (auto& c : conds)
			s += c.kind == PERIODIC ? fmt(" P%zu-%zu/%zu", c.a, c.b, c.dir) : fmt(" %s%zu", c.kind == WALL ? "W" : "E", c.a);
		return s + fmt(" ref %u %u", refine_before, refine_after);
	}
};
template<size_t dim>
class Planned: public ProblemDescription<dim> {
public:
	Plan<dim> plan;
	static boost::shared_ptr<Mesh<dim> > make(const Plan<dim>& p) {
		auto m = box::Problem<dim>::make(p.spec);
		for (auto c = m->begin_active(); c != m->end(); ++c)
			for (unsigned f = 0; f < dealii::GeometryInfo<dim>::faces_per_cell; f++)
				if (c->at_boundary(f)) {
					auto it = p.rename.find(c->face(f)->boundary_id());
					if (it != p.rename.end()) c->face(f)->set_boundary_id(it->second);
				}
		return m;
	}
	Planned(const Plan<dim>& p) : ProblemDescription<dim>(make(p), p.spec.viscosity, 1.0), plan(p) {
		this->getMesh()->refine_global(p.refine_before);
		auto bc = boost::make_shared<BoundaryCollection<dim> >();
		for (auto& c : p.conds)
			if (c.kind == Plan<dim>::PERIODIC) bc->addBoundary(boost::make_shared<PeriodicBoundary<dim> >(c.a, c.b, c.dir, this->getMesh()));
			else if (c.kind == Plan<dim>::WALL) bc->addBoundary(boost::make_shared<VelocityNeqBounceBack<dim> >(c.a, dealii::Tensor<1, dim>()));
			else bc->addBoundary(boost::make_shared<SLEquilibriumBoundary<dim> >(c.a, dealii::Vector<double>(dim)));
		this->setBoundaries(bc);
		this->getMesh()->refine_global(p.refine_after);
	}
	virtual void refine(Mesh<dim>& mesh) { mesh.refine_global(plan.spec.refine); }
	virtual void transform(Mesh<dim>&) {}
	virtual bool isCartesian() { return true; }
	virtual double getCharacteristicVelocity() const { return 0.1; }
};

enum Outcome { ACCEPTED, REFUSED_PROBLEM, REFUSED_SOLVER, LATE };
static const char* names[] = { "accepted", "refused by the problem", "refused by the solver", "refused while running" };

template<size_t dim>
static Outcome attempt(const Plan<dim>& plan, boost::shared_ptr<SolverConfiguration> cfg, size_t N, std::string& why) {
	boost::shared_ptr<Planned<dim> > p;
	try { p = boost::make_shared<Planned<dim> >(plan); }
	catch (std::exception& e) { why = e.what(); return REFUSED_PROBLEM; }
	boost::shared_ptr<CFDSolver<dim> > s;
	try { s = boost::make_shared<CFDSolver<dim> >(cfg, p); }
	catch (std::exception& e) { why = e.what(); return REFUSED_SOLVER; }
	try { s->run(); }
	catch (std::exception& e) { why = e.what(); return LATE; }
	check(s->getIteration() == N, "steps", fmt("%zu instead of %zu ", size_t(s->getIteration()), N) + plan.str());
	return ACCEPTED;
}

template<size_t dim>
static void problems() {
	auto& r = rng();
	for (size_t n = 0; n < scale(4, 16); n++) {
		Run<dim> R = Run<dim>::random(dim == 2 ? 800 : 1500, true, false);
		R.N = 1 + r.below(3);
		R.spec.shear = R.spec.wobble = 0; R.spec.turn = 0; R.spec.local_refine = false;
		R.walls = STILL; R.reg = NO_REGULARIZATION;
		R.cfl = std::min(R.cfl, 1.0);
		R.finish();
		Plan<dim> good;
		good.spec = R.spec;
		good.spec.viscosity = R.nu;
		// names of the sides: any set of different numbers
		std::vector<size_t> id;
		while (id.size() < 2 * dim) {
			size_t x = r.flip(0.5) ? id.size() : r.below(200);
			if (std::find(id.begin(), id.end(), x) == id.end()) id.push_back(x);
		}
		for (size_t i = 0; i < 2 * dim; i++) good.rename[i] = id[i];
		std::vector<size_t> walls, pers;
		for (size_t d = 0; d < dim; d++)
			if (R.spec.periodic[d]) {
				good.conds.push_back({ Plan<dim>::PERIODIC, id[2 * d], id[2 * d + 1], d });
				pers.push_back(d);
			} else for (size_t k = 0; k < 2; k++) {
				good.conds.push_back({ Plan<dim>::WALL, id[2 * d + k], 0, 0 });
				walls.push_back(id[2 * d + k]);
			}
		// any order
		for (size_t i = good.conds.size(); i > 1; i--) std::swap(good.conds[i - 1], good.conds[r.below(i)]);
		size_t unused;
		do unused = r.below(250); while (std::find(id.begin(), id.end(), unused) != id.end());
		std::string base = R.str() + " | " + good.str();

		auto run = [&](const char* flaw, const Plan<dim>& p, std::function<void(SolverConfiguration&)> more = nullptr) {
			auto cfg = R.config();
			if (more) more(*cfg);
			std::string why;
			Outcome o = attempt<dim>(p, cfg, R.N, why);
			seen(std::string(flaw) + base);
			metric(std::string(flaw) + ": " + names[o]);
			std::string what = vh::fmt("%s; %s (%s); ", flaw, names[o], why.c_str()) + base + " | with the flaw: " + p.str();
			if (std::string(flaw) == "none") check(o == ACCEPTED, "sound-problem-refused", what);
			else check(o == REFUSED_PROBLEM || o == REFUSED_SOLVER, std::string("accepted:") + flaw, what);
			sample(what);
		};
		run("none", good);
		Plan<dim> p;
		// a side without a condition
		if (good.conds.size() > 1 || good.conds[0].kind == Plan<dim>::WALL) {
			p = good;
			p.conds.erase(p.conds.begin() + r.below(p.conds.size()));
			run("side-without-condition", p);
		}
		// a condition without a side
		p = good;
		p.conds.insert(p.conds.begin() + r.below(p.conds.size() + 1), { Plan<dim>::WALL, unused, 0, 0 });
		run("condition-without-side", p);
		// a side that is renamed behind the back of its condition
		{
			p = good;
			if (walls.size()) {
				size_t w = r.pick(walls);
				for (auto& x : p.rename) if (x.second == w) x.second = unused;
				run("side-renamed", p);
			}
		}
		// two conditions for one side
		{
			p = good;
			size_t at = r.below(p.conds.size());
			auto c = p.conds[at];
			size_t victim = c.kind == Plan<dim>::PERIODIC && r.flip() ? c.b : c.a;
			p.conds.insert(p.conds.begin() + r.below(p.conds.size() + 1), { Plan<dim>::WALL, victim, 0, 0 });
			run(c.kind == Plan<dim>::PERIODIC ? "wall-on-periodic-side" : "two-walls-on-one-side", p);
		}
		// a periodic boundary on sides that have a wall already
		if (walls.size()) {
			p = good;
			for (size_t d = 0; d < dim; d++) if (!R.spec.periodic[d]) {
				p.conds.push_back({ Plan<dim>::PERIODIC, id[2 * d], id[2 * d + 1], d });
				break;
			}
			run("periodic-on-walls", p);
		}
		// periodic boundaries that cannot be
		if (pers.size()) {
			size_t d = r.pick(pers);
			for (int k = 0; k < 3; k++) {
				p = good;
				for (auto& c : p.conds) if (c.kind == Plan<dim>::PERIODIC && c.dir == d) {
					if (k == 0) c.b = c.a;
					if (k == 1) c.b = unused;
					if (k == 2) c.dir = (d + 1) % dim;
				}
#ifdef DEBUG
				if (k) continue; // deal.II's own contract
#endif
				run(k == 0 ? "periodic-with-itself" : k == 1 ? "periodic-with-nothing" : "periodic-in-wrong-direction", p);
			}
			p = good;
			p.refine_before = 1;
			run("refined-before-periodic", p);
		}
		// a mesh that is refined already
		p = good;
		p.refine_after = 1;
		run("refined-before-solver", p);
		// velocity set of the other dimension
		run("dimension", good, [&](SolverConfiguration& c) {
			std::vector<StencilType> other;
			for (auto& i : all_stencils()) if (i.d != dim) other.push_back(i.type);
			c.setStencil(r.pick(other));
			c.setCollisionScheme(BGK_STANDARD);
		});
		// discontinuous Galerkin has its own needs
		bool pts = r.flip();
		run("sedg-points", good, [&](SolverConfiguration& c) {
			c.setAdvectionScheme(SEDG);
			if (pts) c.setSupportPoints(r.pick(std::vector<SupportPointsName>{ GAUSS_CHEBYSHEV_POINTS, GAUSS_LOBATTO_CHEBYSHEV_POINTS, EQUIDISTANT_POINTS }));
			else { c.setQuadrature(QGAUSS); c.setSupportPoints(GAUSS_LOBATTO_POINTS); }
		});
		if (walls.size()) {
			p = good;
			size_t w = r.pick(walls);
			for (auto& c : p.conds) if (c.kind == Plan<dim>::WALL && c.a == w) c.kind = Plan<dim>::EQ;
			run("sedg-boundary", p, [&](SolverConfiguration& c) {
				c.setAdvectionScheme(SEDG);
				c.setSupportPoints(GAUSS_LOBATTO_POINTS);
			});
		}
		// an output directory that cannot be made
		run("output-directory", good, [&](SolverConfiguration& c) {
			std::string d = fresh_dir();
			c.setSwitchOutputOff(false);
			c.setCommandLineVerbosity(0);
			if (r.flip()) c.setOutputDirectory(d + "/nowhere/out");
			else {
				std::ofstream(d) << "a file\n";
				c.setOutputDirectory(d + "/out");
			}
		});
		run("none", good); // nothing of the refused ones is left
	}
}

// The collection of boundary conditions against a map, over random histories
template<size_t dim>
static void collection() {
	auto& r = rng();
	for (size_t n = 0; n < scale(60, 600); n++) {
		Spec<dim> s;
		auto mesh = box::Problem<dim>::make(s);
		BoundaryCollection<dim> bc;
		std::map<size_t, boost::shared_ptr<Boundary<dim> > > model;
		std::map<size_t, boost::shared_ptr<PeriodicBoundary<dim> > > per;
		std::vector<bool> used(dim, false);
		std::string hist;
		size_t ops = 1 + r.below(12);
		for (size_t o = 0; o < ops; o++) {
			if (r.flip(0.25)) {
				size_t d = r.below(dim);
				if (used[d]) continue;
				used[d] = true;
				auto b = boost::make_shared<PeriodicBoundary<dim> >(2 * d, 2 * d + 1, d, mesh);
				bool fits = !model.count(2 * d) && !model.count(2 * d + 1);
				bool refused = false;
				try { bc.addBoundary(b); } catch (BoundaryCollectionException&) { refused = true; }
				hist += fmt(" P%zu%s", d, refused ? "!" : "");
				check(refused == !fits, fits ? "collection:periodic-refused" : "collection:periodic-duplicate", hist);
				if (!fits) break; // what a refused pair leaves behind is not specified
				for (size_t k = 0; k < 2; k++) { model[2 * d + k] = b; per[2 * d + k] = b; }
			} else {
				size_t id = r.flip(0.6) ? r.below(2 * dim) : r.below(1000);
				boost::shared_ptr<Boundary<dim> > b;
				size_t kind = r.below(4);
				dealii::Tensor<1, dim> u;
				if (kind == 0) b = boost::make_shared<VelocityNeqBounceBack<dim> >(id, u);
				else if (kind == 1) b = boost::make_shared<SLFirstOrderBounceBack<dim> >(id);
				else if (kind == 2) b = boost::make_shared<SLEquilibriumBoundary<dim> >(id, dealii::Vector<double>(dim));
				else b = boost::make_shared<DoNothingBoundary<dim> >(id);
				bool refused = false;
				try { bc.addBoundary(b); } catch (BoundaryCollectionException&) { refused = true; }
				hist += fmt(" W%zu%s", id, refused ? "!" : "");
				bool fits = !model.count(id);
				check(refused == !fits, fits ? "collection:refused" : "collection:duplicate", hist);
				if (fits) model[id] = b;
			}
			// all questions
			check(bc.numberOfBoundaries() == model.size() && bc.getBoundaries().size() == model.size(), "collection:number", hist);
			check(bc.numberOfPeriodicBoundaries() == per.size() && bc.getPeriodicBoundaries().size() == per.size(), "collection:number-periodic", hist);
			for (auto& m : model) {
				bool ok = bc.hasID(m.first) && bc.getBoundary(m.first) == m.second && bc.isPeriodic(m.first) == bool(per.count(m.first));
				if (per.count(m.first)) ok = ok && bc.getPeriodicBoundary(m.first) == per[m.first];
				check(ok, "collection:lookup", fmt("%zu after", m.first) + hist);
			}
			for (int k = 0; k < 4; k++) {
				size_t id = r.below(k < 2 ? 2 * dim : 1100);
				if (model.count(id)) continue;
				bool threw = false;
				check(!bc.hasID(id), "collection:has", fmt("%zu after", id) + hist);
				try { bc.getBoundary(id); } catch (BoundaryCollectionException&) { threw = true; }
				check(threw, "collection:unknown", fmt("%zu after", id) + hist);
				threw = false;
				try { bc.isPeriodic(id); } catch (BoundaryCollectionException&) { threw = true; }
				check(threw, "collection:unknown-periodic", fmt("%zu after", id) + hist);
			}
		}
		seen(hist);
		sample(hist);
	}
}

void vh_cases(Suite& s) {
	int n2 = scale(5, 24), n3 = scale(3, 12);
	for (int i = 0; i < n2; i++) s.push_back({ fmt("refuse problems 2D %d", i), problems<2> });
	for (int i = 0; i < n3; i++) s.push_back({ fmt("refuse problems 3D %d", i), problems<3> });
	s.push_back({ "refuse collection 2D", collection<2> });
	s.push_back({ "refuse collection 3D", collection<3> });
}

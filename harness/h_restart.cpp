// C13: checkpoints, crashes, restarts
#include "run.h"
#include "feoracle.h"
#include "natrium/solver/Checkpoint.h"
#include "natrium/advection/SemiLagrangian.h"
#include "natrium/advection/SEDGMinLee.h"
#include "boost/filesystem.hpp"
#include <sys/wait.h>
#include <fcntl.h>
#include <signal.h>
using namespace natrium;
using namespace vh;
using namespace sim;
namespace fs = boost::filesystem;

static std::string slurp(const std::string& f) {
	std::ifstream in(f, std::ios::binary);
	std::stringstream s;
	s << in.rdbuf();
	return s.str();
}
static std::map<std::string, uint64_t> checksums(const std::string& dir) {
	std::map<std::string, uint64_t> r;
	for (auto& f : listing(dir)) r[f] = hash_str(slurp(dir + "/" + f));
	return r;
}
// the same directory on every process
static std::string shared_dir() {
	static int n = 0;
	std::vector<char> b(1000, 0);
	if (st().rank == 0) snprintf(b.data(), b.size(), "%s/res%d", st().scratch.c_str(), n++);
	if (st().np > 1) MPI_Bcast(b.data(), b.size(), MPI_CHAR, 0, MPI_COMM_WORLD);
	return b.data();
}
static void barrier() { if (st().np > 1) MPI_Barrier(MPI_COMM_WORLD); }

template<size_t dim>
static Run<dim> calm_run(size_t max_dofs) {
	Run<dim> R;
	for (;;) {
		R = Run<dim>::random(max_dofs);
		R.spec.turn = std::min(R.spec.turn, 1); // p4est refuses to load periodic cells with different numberings
		bool walls = R.walls != NONE_;
		if (st().np > 1) {
			size_t cells = 1;
			for (size_t d = 0; d < dim; d++) cells *= R.spec.reps[d] << R.spec.refine;
			if (cells < 4 * size_t(st().np)) continue;
			if (R.tau < 0.55) continue;
			R.points = GAUSS_LOBATTO_POINTS;
		}
		R.cfl = std::min(R.cfl, R.adv == SEDG ? 0.4 : walls ? 0.9 : 2.0);
		if (st().np > 1) R.cfl = std::min(R.cfl, 0.3); // departure points within the ghost cells
		R.finish();
		if (R.force) for (size_t d = 0; d < dim; d++) R.F[d] = rng().uni(-1, 1) * 0.01 * R.cs / R.dt;
		return R;
	}
}
template<size_t dim>
static boost::shared_ptr<SolverConfiguration> config(const Run<dim>& R, const std::string& dir, size_t interval, size_t restart) {
	auto c = R.config(dir);
	c->setOutputCheckpointInterval(interval);
	c->setOutputTableInterval(1);
	if (restart) c->setRestartAtIteration(restart);
	return c;
}
template<size_t dim> static double udiff(const Snap<dim>& a, const Snap<dim>& b) {
	double m = 0;
	for (size_t d = 0; d < dim; d++) m = std::max(m, vdiff(a.u[d], b.u[d]));
	return all_max(m);
}

template<size_t dim>
struct Straight {
	std::map<size_t, Snap<dim> > at;
	double size = 0;
	bool ok = false;
	Straight(const Run<dim>& R) {
		CFDSolver<dim> s(R.config(), R.problem(false));
		at[0].take(s);
		probe<dim>(s, [&](CFDSolver<dim>& s) { at[s.getIteration()].take(s); size = std::max(size, at[s.getIteration()].fmax()); });
		ok = run_stable(s) && size < 20 && s.getIteration() == R.N;
		for (auto& x : at) for (auto& r : x.second.rho) if (st().np == 1 && r < 0.02 * R.rho0) ok = false;
	}
};

// A simulation that is interrupted several times and restarted from its newest or any other checkpoint goes the
// way of the uninterrupted one.
template<size_t dim> static void crash() {
	for (size_t rep = 0; rep < scale(st().np > 1 ? 2 : 5, st().np > 1 ? 40 : 100); rep++) {
		Run<dim> R = calm_run<dim>(scale(700, 2500));
		R.N = 5 + rng().below(12);
		size_t interval = 1 + rng().below(3);
		std::string what = R.str() + fmt(" checkpoint interval %zu", interval);
		std::string key = R.adv == SEDG ? ":sedg" : ":sl";
		if (R.force) key += "-force";
		sample(what);
		Straight<dim> A(R);
		if (!A.ok) { metric("runs-given-up"); continue; }
		std::string dir = shared_dir();
		size_t start = 0, last = 0; // iteration started from, newest checkpoint on disk
		std::map<std::string, uint64_t> sums;
		std::string table_text;
		for (int attempt = 0; attempt < 4; attempt++) {
			// where the plug is pulled; nothing on the last attempt
			size_t stop = attempt == 3 ? size_t(-1) : start + 1 + rng().below(R.N - start + 2);
			size_t restart = 0;
			if (attempt > 0 && last > 0) {
				// newest (which is what "1" stands for) or one by number
				std::vector<size_t> have;
				for (size_t i = 1; i <= last; i++) if (fs::exists(dir + fmt("/checkpoint/checkpoint_%zu.stat", i))) have.push_back(i);
				start = rng().flip(0.4) ? last : rng().pick(have);
				restart = start == last && rng().flip(0.6) ? 1 : start;
				if (restart == 1 && start != last) { start = last; }
				if (start == R.N) { start = last = 0; break; }
			} else start = 0;
			if (attempt > 0 && last == 0) break; // nothing to restart from
			std::string w = what + fmt(" attempt %d from %zu (option %zu) until %zu", attempt, start, restart, stop);
			bool crashed = false, alive = true;
			auto s = boost::make_shared<CFDSolver<dim> >(config(R, dir, interval, restart), R.problem(false));
			if (restart) {
				Snap<dim> b;
				b.take(*s);
				const Snap<dim>& a = A.at.at(start);
				double d = fdiff(a, b);
				check(d <= 1e-11 * A.size, "state-after-restart" + key, w + fmt(": populations differ by %.3g", d));
				check(b.it == start && s->getIterationStart() == start, "iteration-after-restart" + key, w + fmt(": %zu", b.it));
				near(b.t, a.t, 1e-13 * (a.t + R.dt), "time-after-restart" + key, w);
				near(b.dt, a.dt, 1e-13 * a.dt, "step-after-restart" + key, w);
				if (!R.force) { // with a force they include half of its step
					check(all_max(vdiff(a.rho, b.rho)) <= 1e-10 * R.rho0, "density-after-restart" + key, w);
					check(udiff(a, b) <= 1e-10 * R.cs, "velocity-after-restart" + key, w + fmt(": %.3g of %.3g", udiff(a, b), R.mach * R.cs));
				}
				seen_n(3);
				metric("restarts");
			}
			probe<dim>(*s, [&](CFDSolver<dim>& s) {
				Snap<dim> b;
				b.take(s);
				seen_n(1);
				if (!alive) return;
				alive = check(A.at.count(b.it), "too-far" + key, w + fmt(": iteration %zu", b.it));
				if (alive) {
					const Snap<dim>& a = A.at.at(b.it);
					double d = fdiff(a, b);
					metric_max("difference", d / A.size);
					alive = check(d <= 1e-10 * A.size, "trajectory" + key, w + fmt(" step %zu: populations differ by %.3g of %.3g", b.it, d, A.size));
					near(b.t, a.t, 1e-12 * a.t, "time" + key, w);
					check(all_max(vdiff(a.rho, b.rho)) <= 1e-9 * R.rho0, "density" + key, w + fmt(" step %zu", b.it));
					check(udiff(a, b) <= 1e-9 * R.cs, "velocity" + key, w + fmt(" step %zu", b.it));
				}
				if (b.it >= stop) { crashed = true; throw Crash(); }
			});
			seen(w);
			try { s->run(); } catch (Crash&) {}
			size_t end = s->getIteration();
			s.reset();
			barrier();
			if (!crashed) check(end == R.N, "end" + key, w + fmt(": ended at %zu", end));
			else metric("crashes");
			// checkpoints: all the due ones exist, older ones are as they were
			size_t done = crashed ? end - 1 : end; // the plug is pulled before the output of that step
			for (size_t i = start + 1; i <= done; i++)
				if (i % interval == 0 || (!crashed && i == end)) {
					check(fs::exists(dir + fmt("/checkpoint/checkpoint_%zu.stat", i)) && fs::exists(dir + fmt("/checkpoint/checkpoint_%zu.data", i)),
							"checkpoint-missing" + key, w + fmt(": %zu", i));
					last = std::max(last, i);
				}
			auto now = checksums(dir + "/checkpoint");
			for (auto& x : sums) {
				size_t it = 0;
				sscanf(x.first.c_str(), "checkpoint_%zu", &it);
				if (it > start && it <= done) continue; // written again
				seen_n(1);
				check(now.count(x.first) && now[x.first] == x.second, "checkpoint-damaged" + key, w + ": " + x.first);
			}
			sums = now;
			// the table goes on where it was
			std::string text = slurp(dir + "/results_table.txt");
			check(text.compare(0, table_text.size(), table_text) == 0 && (text.size() > table_text.size()), "table-lost" + key, w);
			table_text = text;
			barrier();
			if (!crashed) break;
		}
		size_t covered = 0;
		std::set<size_t> its;
		for (auto& r : table(dir + "/results_table.txt")) {
			if (!check(r.size() == 13, "table-columns", what)) break;
			size_t it = r[0];
			its.insert(it);
			if (!check(A.at.count(it), "table-iteration", what)) continue;
			near(r[1], A.at[it].t, 1e-5 * A.at[it].t, "table-time" + key, what + fmt(" line of iteration %zu", it));
			double m = 0;
			for (auto& v : A.at[it].u) for (double x : v) m = std::max(m, std::fabs(x));
			m = all_max(m);
			if (it > 0 && !R.force) near(r[2], m, 1e-5 * m, "table-velocity" + key, what + fmt(" line of iteration %zu", it));
			covered++;
		}
		metric("table-lines", covered);
		metric("runs" + key);
	}
}

// Restart on a finer mesh: the populations are interpolated
template<size_t dim> static void refined() {
	for (size_t rep = 0; rep < scale(4, 60); rep++) {
		Run<dim> R;
		do R = calm_run<dim>(scale(250, 800)); while (R.spec.refine > 1);
		R.spec.wobble = 0;
		R.finish();
		R.N = 2 + rng().below(4);
		size_t extra = 1 + (dim == 2 && rng().flip(0.4));
		std::string what = R.str() + fmt(" refined %zu times", extra);
		std::string key = R.adv == SEDG ? ":sedg" : ":sl";
		sample(what);
		std::string dir = fresh_dir();
		CFDSolver<dim> a(config(R, dir, 1, 0), R.problem(false));
		if (!run_stable(a)) continue;
		Snap<dim> A;
		A.take(a);
		if (A.fmax() > 20) { metric("runs-given-up"); continue; }
		auto cfg = config(R, dir, 1, R.N);
		cfg->setNumberOfTimeSteps(R.N + 2);
		CFDSolver<dim> b(cfg, R.problem(false, extra));
		box::FEOracle<dim> F(*a.getAdvectionOperator(), R.spec);
		Snap<dim> B;
		B.take(b);
		check(B.it == R.N, "refined-iteration" + key, what);
		near(B.t, A.t, 1e-13 * A.t, "refined-time" + key, what);
		near(B.dt, A.dt / (1 << extra), 1e-10 * A.dt, "refined-step" + key, what);
		std::map<dealii::types::global_dof_index, dealii::Point<dim> > pos;
		b.getAdvectionOperator()->mapDoFsToSupportPoints(pos);
		check(pos.size() > A.rho.size(), "refined-mesh" + key, what);
		std::vector<double> v;
		const size_t q = A.f.size();
		seen(what);
		for (size_t k = 0; k < pos.size(); k++) {
			size_t i = rng().below(q);
			v.clear();
			// several values where cells meet: any of them
			F.at(pos[k], a.getF().at(i), v);
			double best = INFINITY;
			for (double x : v) best = std::min(best, std::fabs(x - B.f[i][k]));
			seen_n(1);
			check(best <= 1e-9, "refined-state" + key, what + fmt(" direction %zu point %zu: got %g, off by %g", i, k, B.f[i][k], best));
			double r = 0;
			for (size_t j = 0; j < q; j++) r += B.f[j][k];
			near(B.rho[k], r, 1e-12 * r, "refined-density" + key, what);
		}
		// and it runs on
		size_t n = 0;
		probe<dim>(b, [&](CFDSolver<dim>& s) { n++; });
		if (run_stable(b)) {
			check(n == 2 && b.getIteration() == R.N + 2, "refined-run" + key, what + fmt(": %zu steps", n));
			near(b.getTime(), A.t + 2 * B.dt, 1e-12 * A.t, "refined-run-time" + key, what);
		}
		metric("refined-restarts");
	}
}

// Impossible restarts are refused and leave the checkpoints as they are
template<size_t dim> static void refusals() {
	for (size_t rep = 0; rep < scale(3, 40); rep++) {
		Run<dim> R;
		do R = calm_run<dim>(scale(400, 800)); while (R.spec.refine == 0 || R.order > 3);
		R.N = 2 + rng().below(5);
		std::string what = R.str(), dir = fresh_dir();
		sample(what);
		CFDSolver<dim> a(config(R, dir, 1, 0), R.problem(false));
		if (!run_stable(a)) continue;
		auto sums = checksums(dir + "/checkpoint");
		auto refuse = [&](const char* name, Run<dim> X, size_t restart, int extra, bool elsewhere = false, std::function<void(SolverConfiguration&)> more = nullptr) {
			std::string w = what + " " + name;
			seen(w);
			bool refused = false;
			try {
				auto cfg = config(X, elsewhere ? fresh_dir() : dir, 1, restart);
				if (more) more(*cfg);
				CFDSolver<dim> b(cfg, X.problem(false, extra));
			}
			catch (vh::Abort&) { refused = true; }
			catch (std::exception&) { refused = true; }
			check(refused, std::string("accepted-") + name, w);
			auto now = checksums(dir + "/checkpoint");
			check(now == sums, std::string("checkpoint-damaged-by-") + name, w);
			metric(name);
		};
		refuse("missing-checkpoint", R, R.N + 1 + rng().below(5), 0);
		refuse("empty-directory", R, 1, 0, true);
		Run<dim> X = R;
		X.order = R.order == 1 ? 2 : R.order - 1;
		refuse("other-order", X, R.N, 0);
		refuse("coarser-mesh", R, R.N, -1);
		std::string data = dir + fmt("/checkpoint/checkpoint_%zu.data", R.N);
		fs::rename(data, data + ".away");
		auto keep = sums;
		sums = checksums(dir + "/checkpoint");
		refuse("missing-data", R, R.N, 0);
		refuse("missing-data-of-newest", R, 1, 0);
		fs::rename(data + ".away", data);
		sums = keep;
		// the undamaged one still works
		CFDSolver<dim> b(config(R, dir, 1, R.N), R.problem(false));
		check(b.getIterationStart() == R.N, "restart-after-refusals", what);
	}
}

// Checkpoint files as such: what is written is read back, whatever else lies around
template<size_t dim> static void files() {
	for (size_t rep = 0; rep < scale(5, 80); rep++) {
		Run<dim> R;
		R = calm_run<dim>(scale(300, 800));
		auto cfg = R.config();
		std::string dir = shared_dir(), what = R.str();
		if (st().rank == 0) fs::create_directory(dir);
		barrier();
		CFDSolver<dim> a(cfg, R.problem(false));
		Snap<dim> A;
		A.take(a);
		std::vector<size_t> its;
		for (int i = 0; i < 5; i++) its.push_back(rng().flip(0.3) ? 1 : 1 + rng().below(rng().flip(0.3) ? 2000000 : 30));
		bool strangers = rng().flip(0.5);
		if (st().rank == 0 && strangers) { // strangers
			std::ofstream(dir + "/readme.txt") << "x";
			std::ofstream(dir + "/notes.stat") << "x";
			std::ofstream(dir + "/checkpointG_7.stat") << "7\n0\n1\n2\n";
			metric("with-other-files");
		}
		barrier();
		struct W { double t; size_t which; };
		std::map<size_t, double> written;
		for (size_t it : its) {
			CheckpointStatus s = { R.dt * it * rng().uni(0.3, 3), it, R.scaling, R.order };
			auto before = checksums(dir);
			barrier();
			Checkpoint<dim> c(it, dir);
			c.write(*const_cast<CFDSolver<dim>&>(a).getProblemDescription()->getMesh(), const_cast<DistributionFunctions&>(a.getF()),
					*a.getAdvectionOperator()->getDoFHandler(), s);
			barrier();
			written[it] = s.time;
			auto after = checksums(dir);
			seen_n(1);
			for (auto& x : before) {
				size_t k = 0;
				if (sscanf(x.first.c_str(), "checkpoint_%zu", &k) == 1 && k == it) continue;
				check(after.count(x.first) && after[x.first] == x.second, "write-damages", what + fmt(": writing %zu changes %s", it, x.first.c_str()));
			}
			check(after.count(fmt("checkpoint_%zu.stat", it)) && after.count(fmt("checkpoint_%zu.data", it)), "write-missing", what + fmt(": %zu", it));
			barrier();
		}
		for (auto& x : written) {
			Checkpoint<dim> c(x.first, dir);
			if (!check(c.exists(), "lost", what + fmt(": %zu", x.first))) continue;
			size_t it = x.first == 1 ? written.rbegin()->first : x.first; // 1 stands for the newest
			auto p = R.problem(false);
			auto fresh = boost::make_shared<CFDSolver<dim> >(R.config(), R.problem(false)); // only for its stencil
			boost::shared_ptr<AdvectionOperator<dim> > op;
			if (R.adv == SEDG) op = boost::make_shared<SEDGMinLee<dim> >(*p, R.order, cfg->getQuadrature(), R.points, R.st, R.flux == CENTRAL);
			else op = boost::make_shared<SemiLagrangian<dim> >(*p, R.order, cfg->getQuadrature(), R.points, R.st, 0.0);
			DistributionFunctions f(R.adv == SEDG);
			CheckpointStatus s;
			c.load(f, *p, *op, s);
			seen(what + fmt(" %zu", x.first));
			check(s.iterationNumber == it, "status-iteration", what + fmt(": %zu instead of %zu", s.iterationNumber, it));
			near(s.time, written[it], 1e-14 * written[it], "status-time", what);
			near(s.stencilScaling, R.scaling, 1e-14 * R.scaling, "status-scaling", what);
			check(s.feOrder == R.order, "status-order", what);
			double m = 0;
			for (size_t i = 0; i < A.f.size(); i++) for (size_t k = 0; k < A.f[i].size(); k++)
				if (op->getLocallyOwnedDofs().is_element(k)) m = std::max(m, std::fabs(f.at(i)(k) - A.f[i][k]));
			check(all_max(m) == 0, "data", what + fmt(": populations differ by %g", m));
			seen_n(5);
		}
	}
}

// Restart with another scaling of the velocity set: density and velocity stay (known finding)
static void other_scaling() {
	for (size_t rep = 0; rep < scale(2, 10); rep++) {
		Run<2> R;
		do R = calm_run<2>(300); while (R.force);
		R.N = 2;
		std::string dir = fresh_dir(), what = R.str();
		CFDSolver<2> a(config(R, dir, 1, 0), R.problem(false));
		if (!run_stable(a)) continue;
		Snap<2> A, B;
		A.take(a);
		Run<2> X = R;
		X.scaling = R.scaling * rng().uni(1.3, 3);
		X.st = info(X.model.st).make(X.scaling);
		CFDSolver<2> b(config(X, dir, 1, 2), R.problem(false));
		B.take(b);
		seen(what);
		check(vdiff(A.rho, B.rho) <= 1e-8, "other-scaling", what + ": density");
		for (int d = 0; d < 2; d++) check(vdiff(A.u[d], B.u[d]) <= 1e-8 * R.cs, "other-scaling", what + ": velocity");
	}
}

// A damaged checkpoint (the process died while writing it) is not taken for a good one
static void torn() {
	for (size_t rep = 0; rep < scale(2, 12); rep++) {
		Run<2> R = calm_run<2>(200);
		R.N = 2;
		std::string dir = fresh_dir(), what = R.str();
		CFDSolver<2> a(config(R, dir, 1, 0), R.problem(false));
		if (!run_stable(a)) continue;
		std::string data = dir + "/checkpoint/checkpoint_2.data", all = slurp(data);
		size_t cut = rep == 0 ? 0 : rng().below(all.size());
		{ std::ofstream(data, std::ios::binary | std::ios::trunc) << all.substr(0, cut); }
		fflush(0);
		// whoever reads it may well die of it
		pid_t pid = fork();
		if (pid == 0) {
			st().out = nullptr;
			alarm(60);
			int null = open("/dev/null", O_WRONLY);
			dup2(null, 1); dup2(null, 2);
			int rc = 3;
			try { CFDSolver<2> b(config(R, dir, 1, 2), R.problem(false)); Snap<2> A, B; A.take(a); B.take(b); rc = fdiff(A, B) == 0 ? 4 : 5; }
			catch (std::exception&) { rc = 3; }
			catch (...) { rc = 3; }
			_exit(rc);
		}
		int status = 0;
		waitpid(pid, &status, 0);
		int rc = WIFEXITED(status) ? WEXITSTATUS(status) : -1;
		seen(what + fmt(" cut %zu", cut));
		metric(fmt("torn-rc%d", rc));
		check(rc != 5 && !(WIFSIGNALED(status) && (WTERMSIG(status) == SIGALRM || WTERMSIG(status) == SIGSEGV)), "torn-checkpoint",
				what + fmt(": %zu of %zu bytes, status %d", cut, all.size(), status));
	}
}

void vh_cases(Suite& s) {
	for (int i = 0; i < 6; i++) {
		s.push_back({ fmt("restart crash 2D %d", i), crash<2> });
		if (i < 3) s.push_back({ fmt("restart crash 3D %d", i), crash<3> });
		if (i < 3) s.push_back({ fmt("restart files 2D %d", i), files<2> });
		if (i < 1) s.push_back({ fmt("restart files 3D %d", i), files<3> });
		if (st().np > 1) continue;
		if (i < 4) s.push_back({ fmt("restart refined 2D %d", i), refined<2> });
		if (i < 2) s.push_back({ fmt("restart refined 3D %d", i), refined<3> });
		if (i < 2) s.push_back({ fmt("restart refusals 2D %d", i), refusals<2> });
		if (i < 1) s.push_back({ fmt("restart refusals 3D %d", i), refusals<3> });
	}
	if (st().np == 1) s.push_back({ "restart torn", torn });
	if (st().np == 1) s.push_back({ "restart other scaling", other_scaling });
}

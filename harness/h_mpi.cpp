// C19: the same simulation (with or without energy) on one and on several processes.
// The case runs the simulation itself, starts "mpirun -np N <this program> --worker ..." for the
// parallel run, and compares what both wrote.
#include <sys/stat.h>
#include "run.h"
#include "thermal.h"
#include "vtu.h"
#include "natrium/solver/BenchmarkCFDSolver.h"
#include "natrium/problemdescription/Benchmark.h"
#include "deal.II/grid/cell_id.h"
#include <sys/wait.h>
#include <fcntl.h>
#include <signal.h>
#include <functional>

using namespace natrium;
using namespace vh;
using namespace sim;
typedef std::vector<double> V;
extern char** environ;

// ---------------------------------------------------------------- other schedules
// the parallel runs lose time at random places of their communication
#undef MPI_Allreduce
#undef MPI_Barrier
#undef MPI_Isend
#undef MPI_Rsend
#undef MPI_Waitall
#undef MPI_Bcast
static uint64_t g_delay = 0, g_delays = 0;
static void dawdle() {
	if (!g_delay) return;
	g_delay = mix(g_delay + 1);
	if (g_delay % 250 == 0) { g_delays++; usleep(g_delay / 64 % 2000); }
}
extern "C" int MPI_Allreduce(const void* a, void* b, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c) { dawdle(); return PMPI_Allreduce(a, b, n, t, o, c); }
extern "C" int MPI_Barrier(MPI_Comm c) { dawdle(); return PMPI_Barrier(c); }
extern "C" int MPI_Isend(const void* a, int n, MPI_Datatype t, int d, int g, MPI_Comm c, MPI_Request* r) { dawdle(); return PMPI_Isend(a, n, t, d, g, c, r); }
extern "C" int MPI_Rsend(const void* a, int n, MPI_Datatype t, int d, int g, MPI_Comm c) { dawdle(); return PMPI_Rsend(a, n, t, d, g, c); }
extern "C" int MPI_Waitall(int n, MPI_Request* r, MPI_Status* s) { dawdle(); return PMPI_Waitall(n, r, s); }
extern "C" int MPI_Bcast(void* a, int n, MPI_Datatype t, int r, MPI_Comm c) { dawdle(); return PMPI_Bcast(a, n, t, r, c); }

// ---------------------------------------------------------------- one simulation
template<size_t dim> class Bench: public box::Problem<dim, Benchmark<dim> > {
public:
	Bench(const box::Spec<dim>& s, typename box::Problem<dim, Benchmark<dim> >::WallMaker w, bool refined)
			: box::Problem<dim, Benchmark<dim> >(s, w, refined) {}
	using Benchmark<dim>::setAnalyticRho;
	using Benchmark<dim>::setAnalyticU;
};
template<size_t dim>
struct Plan {
	Run<dim> R;
	bool bench = false, files = false, turb = false, global = false;
	size_t ti = 1, normal = 0;
	std::vector<double> planes;
	double looseness = 1; // iterative solvers
	int kill = -1; // restart after this many steps
	bool thermal = false;
	Gas gas;
	Heat heat;
	explicit Plan(uint64_t seed) {
		st().rng = Rng(seed);
		auto& r = rng();
		thermal = seed % 4 == 0;
		if (thermal) {
			do R = random_thermal<dim>(dim == 2 ? 900 : 1500); while (R.spec.wobble != 0 && R.adv == SEMI_LAGRANGIAN);
			R.cfl = std::min(R.cfl, 0.3);
			R.N = 2 + r.below(5);
			R.finish();
			R.random_fields();
			if (R.adv == SEDG && r.flip(0.3)) {
				R.filter = true;
				R.damp.is_new = r.flip(0.3);
				R.damp.by_sum = r.flip();
			}
			gas = Gas::random(true);
			heat = random_heat();
			files = r.flip(0.7);
			ti = 1 + r.below(2);
			turb = files && r.flip();
			if (files && r.flip(0.4)) kill = 1 + r.below(R.N - 1);
			if (kill % int(ti) != 0) kill = -1;
			return;
		}
		for (;;) {
			R = Run<dim>::random(r.flip(0.15) ? 150 : dim == 2 ? 900 : 1500);
			if (R.spec.wobble != 0 && R.adv == SEMI_LAGRANGIAN) continue;
			R.tau = std::max(R.tau, 0.6);
			R.cfl = std::min(R.cfl, R.adv == SEDG ? 0.3 : 0.3); // departure points within the ghost cells
			R.N = 2 + r.below(6);
			if (R.adv == SEDG && r.flip(0.3)) { // explicit, implicit and exponential integrators
				switch (r.below(4)) {
				case 2: R.integrator = OTHER; R.deal = r.pick(std::vector<DealIntegratorName>{ BACKWARD_EULER, IMPLICIT_MIDPOINT, CRANK_NICOLSON, SDIRK_TWO_STAGES }); looseness = 1e4; break;
				case 0: R.integrator = THETA_METHOD; looseness = 1e4; break;
				case 1: R.integrator = EXPONENTIAL; looseness = 1e2; break;
				default: R.integrator = OTHER; R.deal = r.pick(std::vector<DealIntegratorName>{ FORWARD_EULER, RK_THIRD_ORDER, RK_CLASSIC_FOURTH_ORDER }); break;
				}
			}
			if (R.adv == SEDG && r.flip(0.25)) {
				R.filter = true;
				R.damp.is_new = r.flip(0.3);
				R.damp.by_sum = r.flip();
				R.filter_interval = 1 + r.below(2);
			}
			if (r.flip(0.15)) {
				R.reg = PSEUDO_ENTROPY_MAXIMIZATION;
				R.model = { int(dim), dim == 2 ? Stencil_D2Q9 : Stencil_D3Q19, BGK_STANDARD, BGK_EQUILIBRIUM, dim == 2 ? "D2Q9-BGK" : "D3Q19-BGK" };
			}
			R.finish();
			R.random_fields();
			if (R.force) for (size_t d = 0; d < dim; d++) R.F[d] = r.uni(-1, 1) * 0.01 * R.cs / R.dt;
			break;
		}
		bench = r.flip(0.3);
		files = r.flip(0.7);
		ti = 1 + r.below(2);
		turb = files && !bench && R.spec.wobble == 0 && R.points == GAUSS_LOBATTO_POINTS && r.flip(0.5);
		normal = dim - 1;
		// planes through the vertices of the coarse cells
		if (turb) for (int k = 0; k < 2; k++) planes.push_back(R.spec.len[normal] * (k * 1.0));
		global = files && r.flip(0.4);
		if (files && r.flip(0.5)) kill = 1 + r.below(R.N - 1);
		if (kill % int(ti) != 0) kill = -1; // the row of the last iteration would not be in the table of an uninterrupted run
	}
	std::string str() const {
		if (thermal) return R.str() + gas.str() + fmt(" T %g files %d statistics %d restart %d", heat.T0, files, turb, kill);
		return R.str() + fmt(" integrator %d/%d benchmark %d files %d turbulence %d global %d filter %s regularization %d restart %d", int(R.integrator), int(R.deal), bench, files, turb, global,
			R.filter ? R.damp.str().c_str() : "-", int(R.reg), kill);
	}
	boost::shared_ptr<CFDSolver<dim> > make(const std::string& dir, size_t restart = 0, size_t N = 0) const {
		auto cfg = R.config(files ? dir : std::string());
		if (N) cfg->setNumberOfTimeSteps(N);
		if (files) {
			cfg->setOutputTableInterval(ti);
			cfg->setOutputSolutionInterval(3);
			if (kill > 0) cfg->setOutputCheckpointInterval(kill);
			if (restart) cfg->setRestartAtIteration(restart);
			cfg->setOutputGlobalTurbulenceStatistics(global);
			if (turb && thermal) cfg->setOutputCompressibleTurbulenceStatistics(true);
			else if (turb) {
				cfg->setOutputTurbulenceStatistics(true);
				cfg->setWallNormalDirection(normal);
				cfg->setWallNormalCoordinates(planes);
			}
		}
		if (thermal) {
			gas.apply(*cfg);
			return boost::make_shared<CompressibleCFDSolver<dim> >(cfg, thermal_problem<dim>(R, heat, false));
		}
		if (!bench) return boost::make_shared<CFDSolver<dim> >(cfg, R.problem(false));
		auto p = R.template problem_of<Bench<dim> >(false);
		Run<dim> r = R;
		double w = 0.7 / R.dt;
		p->setAnalyticRho(boost::make_shared<box::Fn<dim> >(1, [r](const dealii::Point<dim>& x, unsigned, double) { return r.rho(x); }));
		p->setAnalyticU(boost::make_shared<box::Fn<dim> >(dim, [r, w](const dealii::Point<dim>& x, unsigned c, double t) { return r.vel(x, c) * std::cos(w * t); }));
		return boost::make_shared<BenchmarkCFDSolver<dim> >(cfg, p);
	}
};

// a record is one dof of a cell (discontinuous elements) or a point (continuous ones) at one iteration; "scalars" at an iteration
typedef std::map<std::string, V> Dump;
template<size_t dim> static void dump(const CFDSolver<dim>& s, Dump& D) {
	auto& adv = *s.getAdvectionOperator();
	const auto& fe = *adv.getFe();
	std::vector<dealii::types::global_dof_index> dofs(fe.dofs_per_cell);
	const auto& own = adv.getLocallyOwnedDofs();
	bool cont = fe.dofs_per_vertex > 0;
	std::string it = fmt("%zu ", s.getIteration());
	auto* hot = dynamic_cast<const CompressibleCFDSolver<dim>*>(&s);
	for (auto c = adv.getDoFHandler()->begin_active(); c != adv.getDoFHandler()->end(); ++c) {
		if (!c->is_locally_owned()) continue;
		c->get_dof_indices(dofs);
		V v;
		for (size_t q = 0; q < dofs.size(); q++) {
			auto k = dofs[q];
			if (cont && !own.is_element(k)) continue; // written by the owner of the dof
			if (cont) v.clear();
			v.push_back(s.getDensity()(k));
			for (size_t d = 0; d < dim; d++) v.push_back(s.getVelocity().at(d)(k));
			for (size_t i = 0; i < s.getStencil()->getQ(); i++) v.push_back(s.getF().at(i)(k));
			if (hot) {
				v.push_back(hot->getTemperature()(k));
				for (size_t i = 0; i < s.getStencil()->getQ(); i++) v.push_back(hot->getG().at(i)(k));
			}
			if (!cont) continue;
			auto x = adv.getMapping().transform_unit_to_real_cell(c, fe.get_unit_support_points()[q]);
			std::string key = it;
			for (size_t d = 0; d < dim; d++) key += fmt("%.6f,", x(d) + 1e-9);
			D[key] = v;
		}
		if (!cont) D[it + c->id().to_string()] = v;
	}
	D[fmt("%zu", s.getIteration())] = { s.getTime(), s.getTimeStepSize(), double(s.getNumberOfDoFs()), s.getTau() };
}
static void save(const Dump& D, const std::string& file) {
	FILE* f = fopen(file.c_str(), "wb");
	for (auto& e : D) {
		size_t n = e.first.size(), m = e.second.size();
		fwrite(&n, sizeof n, 1, f); fwrite(e.first.data(), 1, n, f);
		fwrite(&m, sizeof m, 1, f); fwrite(e.second.data(), sizeof(double), m, f);
	}
	fclose(f);
}
static bool load(Dump& D, const std::string& file) {
	FILE* f = fopen(file.c_str(), "rb");
	if (!f) return false;
	size_t n, m;
	while (fread(&n, sizeof n, 1, f) == 1) {
		std::string k(n, ' ');
		if (fread(&k[0], 1, n, f) != n || fread(&m, sizeof m, 1, f) != 1) break;
		V v(m);
		if (fread(v.data(), sizeof(double), m, f) != m) break;
		D[k] = v;
	}
	fclose(f);
	return true;
}

// the run of a plan; a restarted one continues in the same directory
template<size_t dim> static bool execute(const Plan<dim>& P, const std::string& dir, Dump& D, size_t restart, size_t N, double* low = nullptr, double* high = nullptr, const std::string& beat = "") {
	auto s = P.make(dir, restart, N);
	probe<dim>(*s, [&](CFDSolver<dim>& x) {
		if (low) {
			for (size_t k = 0; k < x.getNumberOfDoFs(); k++) *low = std::min(*low, x.getDensity()(k));
			Snap<dim> z;
			z.take(x);
			*high = std::max(*high, z.fmax());
			if (!(*low > 0.1 * P.R.rho0) || *high > 30) throw Crash();
		}
		dump(x, D);
		if (beat.size() && st().rank == 0) { FILE* f = fopen(beat.c_str(), "a"); fputc('.', f); fclose(f); }
	});
	try {
		if (auto* hot = dynamic_cast<CompressibleCFDSolver<dim>*>(s.get())) { // run() is not virtual
			if (low) return run_stable(*hot);
			hot->run();
			return true;
		}
		if (low) return run_stable(*s);
		s->run();
	} catch (Crash&) { return false; }
	return true;
}

// ---------------------------------------------------------------- the parallel side
static std::string arg(const std::string& k, const std::string& def = "") {
	auto& e = st().extra;
	for (size_t i = 0; i + 1 < e.size(); i++) if (e[i] == k) return e[i + 1];
	return def;
}
template<size_t dim> static void worker_dim(uint64_t seed, const std::string& base, int part, size_t restart, size_t N) {
	Plan<dim> P(seed);
	Dump D;
	execute<dim>(P, base, D, restart, N, nullptr, nullptr, base + ".beat");
	D["delays"] = { double(g_delays) };
	save(D, base + fmt(".%d.%d", part, st().rank));
}
static void worker() {
	// lines: dim seed directory part restart N
	std::ifstream in(arg("--worker"));
	size_t dim, restart, N; uint64_t seed; std::string dir; int part;
	while (in >> dim >> seed >> dir >> part >> restart >> N) {
		g_delay = mix(seed + 977 * st().rank + 3 * part) | 1;
		if (st().rank == 0) fprintf(stderr, "PLAN %s part %d\n", dir.c_str(), part);
		try {
			if (dim == 2) worker_dim<2>(seed, dir, part, restart, N);
			else worker_dim<3>(seed, dir, part, restart, N);
		} catch (std::exception& e) {
			fprintf(stderr, "process %d: what(): %s\n", st().rank, e.what());
			fflush(stderr);
			usleep(200000);
			PMPI_Abort(MPI_COMM_WORLD, 90);
		}
		MPI_Barrier(MPI_COMM_WORLD);
		if (st().rank == 0) { FILE* f = fopen((dir + fmt(".%d.done", part)).c_str(), "w"); fclose(f); }
	}
}
// returns the exit status, or -1 after the time limit
static int mpirun(int np, const std::string& list, const std::string& log, double limit, const std::function<size_t()>& progress) {
	static std::string self;
	if (self.empty()) { char b[4096]; ssize_t n = readlink("/proc/self/exe", b, sizeof b); self.assign(b, n > 0 ? n : 0); }
	std::vector<std::string> a = { "mpirun", "--oversubscribe", "--bind-to", "none", "-np", std::to_string(np), self, "--worker", list, "--scratch", st().scratch, "--filter", "worker" };
	std::vector<std::string> env;
	for (char** e = environ; *e; e++) {
		std::string v(*e);
		bool ompi = v.compare(0, 5, "OMPI_") == 0 || v.compare(0, 5, "PMIX_") == 0 || v.compare(0, 5, "PRTE_") == 0;
		bool keep = v.compare(0, 10, "OMPI_ALLOW") == 0 || v.compare(0, 14, "OMPI_MCA_rmaps") == 0 || v.compare(0, 12, "OMPI_MCA_btl") == 0 || v.compare(0, 12, "OMPI_MCA_mpi") == 0 || v.compare(0, 20, "OMPI_MCA_orte_tmpdir") == 0;
		if (!ompi || keep) env.push_back(v);
	}
	std::vector<char*> av, ev;
	for (auto& s : a) av.push_back(&s[0]);
	for (auto& s : env) ev.push_back(&s[0]);
	av.push_back(nullptr); ev.push_back(nullptr);
	pid_t p = fork();
	if (p == 0) {
		setpgid(0, 0);
		int fd = open(log.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644), nul = open("/dev/null", O_RDONLY);
		dup2(nul, 0); dup2(fd, 1); dup2(fd, 2);
		execvpe("mpirun", av.data(), ev.data());
		_exit(126);
	}
	size_t last = 0;
	for (double t = 0; t < limit; t += 0.05) {
		size_t now = progress();
		if (now != last) { last = now; t = 0; } // no iteration within the limit
		int status;
		if (waitpid(p, &status, WNOHANG) == p) return WIFEXITED(status) ? WEXITSTATUS(status) : 128 + WTERMSIG(status);
		usleep(50000);
	}
	kill(-p, SIGTERM); // mpirun takes its processes along
	for (int k = 0; k < 40; k++) {
		int status;
		if (waitpid(p, &status, WNOHANG) == p) return -1;
		usleep(50000);
	}
	kill(-p, SIGKILL);
	waitpid(p, nullptr, 0);
	return -1;
}
static std::string tail(const std::string& file, const std::string& from) {
	std::ifstream in(file);
	std::stringstream ss;
	ss << in.rdbuf();
	std::string t = ss.str();
	size_t p = t.rfind("PLAN ");
	if (p != std::string::npos) t = t.substr(p);
	for (const char* w : { "ERROR: AddressSanitizer", "runtime error:", "Assertion", "what():", "exception", "Exception", "violation", "Error" }) {
		size_t q = t.find(w);
		if (q != std::string::npos) return t.substr(q > 100 ? q - 100 : 0, 900);
	}
	return t.size() > 700 ? t.substr(t.size() - 700) : t;
}

// ---------------------------------------------------------------- comparison
struct Job { size_t dim; uint64_t seed; std::string what, dir, ref; double tol; bool files, turb, global, bench, thermal; size_t N; int kill; double size; };

static void compare_tables(const Job& J, const std::string& name, int np, double tol) {
	auto a = sim::table(J.ref + "/" + name), b = sim::table(J.dir + "/" + name);
	if (J.kill > 0) // a restart writes the row of the iteration it starts from again
		for (size_t r = 1; r < b.size();) {
			if (b[r].size() && b[r - 1].size() && b[r][0] == b[r - 1][0]) b.erase(b.begin() + r);
			else r++;
		}
	if (!check(a.size() == b.size() && !a.empty(), "table:lines", J.what + fmt(" %s: %zu lines on one process, %zu on %d", name.c_str(), a.size(), b.size(), np))) return;
	V col; // size of the quantities
	for (auto& r : a) for (size_t c = 0; c < r.size(); c++) { if (col.size() <= c) col.push_back(0); if (std::isfinite(r[c])) col[c] = std::max(col[c], std::fabs(r[c])); }
	for (size_t r = 0; r < a.size(); r++) {
		if (!check(a[r].size() == b[r].size(), "table:columns", J.what + " " + name)) return;
		for (size_t c = 0; c < a[r].size(); c++) {
			seen_n(1);
			if (!std::isfinite(a[r][c])) continue;
			near(b[r][c], a[r][c], tol * (std::fabs(a[r][c]) + 1e-4 * col[c]) + 1e-13 * J.size, "table:" + name + fmt(":column %zu", c), J.what + fmt(" np %d line %zu", np, r));
		}
	}
	metric("table lines", a.size());
}
static void compare(const Job& J, int np, const Dump& A, const std::vector<int>& parts, size_t from) {
	Dump B;
	size_t owners = 0, dofless = 0;
	for (int part : parts) {
		Dump P;
		for (int r = 0; r < np; r++) {
			Dump d;
			if (!load(d, J.dir + fmt(".%d.%d", part, r))) { violation("no result", J.what + fmt(" np %d process %d", np, r)); return; }
			size_t cells = 0;
			metric("delays injected", d["delays"].at(0));
			d.erase("delays");
			for (auto& e : d) {
				bool scalars = e.first.find(' ') == std::string::npos;
				if (!scalars) {
					cells++;
					check(!P.count(e.first), "cells owned twice", J.what + " " + e.first);
				} else if (P.count(e.first)) check(P[e.first] == e.second, "processes disagree", J.what + fmt(" np %d iteration ", np) + e.first);
				P[e.first] = e.second;
			}
			owners += cells > 0;
			dofless += cells == 0;
		}
		for (auto& e : P) B.insert(e); // the first part counts for the checkpointed iteration
	}
	metric("processes with cells", owners);
	if (dofless) metric("processes without cells", dofless);
	size_t cells = 0, n = 0;
	double worst = 0;
	for (auto& e : A) {
		if (size_t(atol(e.first.c_str())) < from) continue;
		auto b = B.find(e.first);
		if (!check(b != B.end(), "cell missing", J.what + fmt(" np %d: %s", np, e.first.c_str()))) return;
		if (e.first.find(' ') == std::string::npos) {
			for (size_t k = 0; k < e.second.size(); k++) near(b->second[k], e.second[k], 1e-10 * std::fabs(e.second[k]), fmt("scalar %zu", k), J.what + fmt(" np %d iteration %s", np, e.first.c_str()));
			continue;
		}
		cells++;
		if (!check(b->second.size() == e.second.size(), "dofs of a cell", J.what)) return;
		for (size_t k = 0; k < e.second.size(); k++) {
			double d = std::fabs(b->second[k] - e.second[k]);
			worst = std::max(worst, std::isfinite(d) ? d : INFINITY);
			n++;
		}
	}
	seen_n(n);
	metric("cells compared", cells);
	metric_max("difference", worst / J.size);
	check(worst <= J.tol * J.size, "trajectory", J.what + fmt(" np %d: values differ by %.3g (of %.3g)", np, worst, J.size));
}

template<size_t dim> static bool reference(uint64_t seed, std::vector<Job>& jobs, std::vector<Dump>& dumps) {
	Plan<dim> P(seed);
	Job J;
	J.dim = dim; J.seed = seed; J.what = P.str() + fmt(" plan %zu %llu", size_t(dim), (unsigned long long) seed);
	J.dir = sim::fresh_dir(); J.ref = sim::fresh_dir();
	J.tol = 1e-10 * P.looseness;
	J.files = P.files; J.turb = P.turb; J.global = P.global; J.bench = P.bench; J.thermal = P.thermal; J.N = P.R.N; J.kill = P.kill;
	Dump D;
	double low = INFINITY, high = 0;
	if (!execute<dim>(P, J.ref, D, 0, 0, &low, &high)) { metric("runs-blown-up"); return false; }
	J.size = std::max(high, P.R.cs); // velocities are compared, too
	sample(J.what);
	jobs.push_back(J);
	dumps.push_back(D);
	return true;
}
static void batch(size_t dim, int np, size_t want) {
	std::vector<Job> jobs;
	std::vector<Dump> dumps;
	uint64_t base = rng().next();
	for (size_t k = 0; k < 20 * want && jobs.size() < want; k++) {
		uint64_t s = mix(base + k) >> 8;
		if (dim == 2) reference<2>(s, jobs, dumps);
		else reference<3>(s, jobs, dumps);
	}
	std::string list = st().scratch + "/list." + st().case_name, log = st().scratch + "/log";
	for (char& c : list) if (c == ' ') c = '_';
	std::vector<bool> dead(jobs.size());
	size_t alone = SIZE_MAX;
	for (size_t first = 0; first < jobs.size();) {
		FILE* f = fopen(list.c_str(), "w");
		for (size_t j = first; j < (alone == first ? first + 1 : jobs.size()); j++) {
			auto& J = jobs[j];
			if (J.kill < 0) fprintf(f, "%zu %llu %s 0 0 0\n", J.dim, (unsigned long long) J.seed, J.dir.c_str());
			else // stopped at a checkpoint and continued
				fprintf(f, "%zu %llu %s 0 0 %d\n%zu %llu %s 1 %d 0\n", J.dim, (unsigned long long) J.seed, J.dir.c_str(), J.kill, J.dim, (unsigned long long) J.seed, J.dir.c_str(), J.kill);
		}
		fclose(f);
		int rc = mpirun(np, list, log, alone == first ? 120 : 60, [&] {
			size_t n = 0;
			struct stat b;
			for (auto& J : jobs) {
				for (const char* p : { ".0.done", ".1.done" }) n += access((J.dir + p).c_str(), F_OK) == 0;
				if (stat((J.dir + ".beat").c_str(), &b) == 0) n += b.st_size;
			}
			return n;
		});
		size_t next = alone == first ? first + 1 : jobs.size();
		if (rc != 0) {
			for (next = first; next < jobs.size(); next++)
				if (access((jobs[next].dir + (jobs[next].kill < 0 ? ".0.done" : ".1.done")).c_str(), F_OK) != 0) break;
			if (next == jobs.size()) next--; // died at the end
			if (rc == -1 && alone != next) { // it may just be slow, there are many others at work: once more, and nothing else
				metric("late simulations repeated");
				jobs[next].dir = sim::fresh_dir();
				first = alone = next;
				continue;
			}
			dead[next] = true;
			violation(rc == -1 ? "hangs" : "dies", jobs[next].what + fmt(" np %d status %d: ", np, rc) + tail(log, jobs[next].dir));
			next++;
			if (rc == -1) { // that is enough
				for (size_t j = next; j < jobs.size(); j++) dead[j] = true;
				next = jobs.size();
			}
		}
		first = next;
	}
	for (size_t j = 0; j < jobs.size(); j++) {
		if (dead[j]) continue;
		auto& J = jobs[j];
		seen(J.what + std::to_string(np));
		if (J.thermal) metric("runs with energy");
		if (J.kill < 0) compare(J, np, dumps[j], { 0 }, 0);
		else compare(J, np, dumps[j], { 0, 1 }, 0);
		if (!J.files) continue;
		double tol = std::max(3e-5, 100 * J.tol);
		compare_tables(J, "results_table.txt", np, tol);
		if (J.turb && J.thermal) compare_tables(J, "compressible_turbulence_table.txt", np, tol);
		else if (J.turb) compare_tables(J, "turbulence_table.txt", np, tol);
		if (J.global) compare_tables(J, "global_turbulence_table.txt", np, tol);
		if (J.bench) compare_tables(J, "errors_table.txt", np, tol);
		metric("runs with files");
	}
	metric("parallel runs", jobs.size());
}

void vh_cases(Suite& S) {
	if (!arg("--worker").empty()) { S.push_back({ "worker", worker }); return; }
	for (int k = 0; k < int(scale(4, 40)); k++)
		for (int np : { 2, 3, 4 }) {
			S.push_back({ fmt("partition 2D np%d %d", np, k), [np] { batch(2, np, scale(6, 20)); } });
			if (k < 3 || k % 3 == 0) S.push_back({ fmt("partition 3D np%d %d", np, k), [np] { batch(3, np, scale(4, 8)); } });
		}
}

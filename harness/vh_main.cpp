// main() of all harnesses
#include "vh.h"
#include <dlfcn.h>
#include <exception>
#include <sys/stat.h>
#include "natrium/utilities/MPIGuard.h"
#include "natrium/utilities/Logging.h"

extern "C" void __sanitizer_print_stack_trace();
static bool g_abort_throws = true;

// natrium_errorexit() ends in MPI_Abort: with one process, turn it into an exception
extern "C" int MPI_Abort(MPI_Comm comm, int code) {
	if (g_abort_throws)
		throw vh::Abort("MPI_Abort(" + std::to_string(code) + ")");
	__sanitizer_print_stack_trace();
	return PMPI_Abort(comm, code);
}

int main(int argc, char** argv) {
	using namespace vh;
	std::string out, filter;
	size_t shard = 0, nshards = 1, from = 0;
	bool list = false;
	State& s = st();
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
		if (a == "--out") out = val();
		else if (a == "--seed") s.seed = strtoull(val().c_str(), 0, 10);
		else if (a == "--tier") s.thorough = (val() == "thorough");
		else if (a == "--shard") { std::string v = val(); sscanf(v.c_str(), "%zu/%zu", &shard, &nshards); }
		else if (a == "--from") from = strtoull(val().c_str(), 0, 10);
		else if (a == "--filter") filter = val();
		else if (a == "--scratch") s.scratch = val();
		else if (a == "--list") list = true;
		else s.extra.push_back(a);
	}
	// the project's own singleton initialises MPI
	int mpi_argc = 1;
	static char* mpi_argv_arr[] = { argv[0], nullptr };
	char** mpi_argv = mpi_argv_arr;
	boost::shared_ptr<natrium::MPIGuard> guard = natrium::MPIGuard::getInstance(mpi_argc, mpi_argv);
	MPI_Comm_rank(MPI_COMM_WORLD, &s.rank);
	MPI_Comm_size(MPI_COMM_WORLD, &s.np);
	g_abort_throws = s.np == 1;
	if (!out.empty() && s.rank == 0) s.out = fopen(out.c_str(), "a");
	Suite suite;
	vh_cases(suite);
	size_t idx = 0;
	for (size_t k = 0; k < suite.size(); k++) {
		if (!filter.empty() && suite[k].name.find(filter) == std::string::npos) continue;
		size_t i = idx++;
		if (i % nshards != shard || i < from) continue;
		if (list) { if (s.rank == 0) printf("%zu %s\n", i, suite[k].name.c_str()); continue; }
		s.case_name = suite[k].name;
		s.rng = Rng(mix(s.seed) ^ hash_str(suite[k].name));
		s.evals = 0; s.distinct.clear(); s.metrics.clear(); s.viol.clear(); s.samples = 0;
		line(fmt("{\"t\":\"begin\",\"idx\":%zu,\"case\":\"", i) + esc(s.case_name) + "\"}");
		const double t_case = MPI_Wtime();
		try {
			suite[k].f();
		} catch (std::exception& e) {
			violation("exception:" + s.case_name, std::string("unexpected exception: ") + e.what());
		} catch (...) {
			violation("exception:" + s.case_name, "unexpected exception of unknown type");
		}
		std::string m;
		for (auto& x : s.metrics)
			m += (m.empty() ? "" : ",") + ("\"" + esc(x.first) + "\":" + (std::isfinite(x.second) ? fmt("%.10g", x.second) : std::string("null")));
		int nv = 0;
		for (auto& x : s.viol) nv += x.second;
		line(fmt("{\"t\":\"end\",\"idx\":%zu,\"s\":%.2f,\"evals\":%llu,\"distinct\":%zu,\"viol\":%d,\"metrics\":{", i, MPI_Wtime() - t_case,
				(unsigned long long) s.evals, s.distinct.size(), nv) + m + "}}");
	}
	line("{\"t\":\"done\"}");
	if (s.out) fclose(s.out);
	fflush(stdout);
	if (s.np > 1) { MPI_Barrier(MPI_COMM_WORLD); PMPI_Finalize(); }
	_exit(0); // the static destructors of the library race with MPI_Finalize
}

// C14 "config": settings round trips; C15 "cmdline": command line to settings.
#include "vh.h"
#include <fstream>
#include <limits>
#include "natrium/solver/SolverConfiguration.h"
#include "natrium/utilities/CommandLineParser.h"
#include "natrium/utilities/CFDSolverUtilities.h"
using namespace vh;
using namespace natrium;
typedef SolverConfiguration Cfg;

static std::string num(double x) { return fmt("%.15g", x); }
static std::string num(size_t x) { return fmt("%zu", x); }

struct Setting {
	std::string name;
	std::function<std::string(Cfg&)> get;
	// sets a random legal value and returns what the getter must say from now on
	std::function<std::string(Cfg&)> set;
	// illegal assignments
	std::vector<std::function<void(Cfg&)> > bad;
};

template<class T> static T pickv(const std::vector<T>& v) { return v[rng().below(v.size())]; }
// a double that survives the 16 digits the parameter file has
static double rd(double a, double b) {
	double x = rng().flip(0.2) ? pickv<double>( { a, b, std::floor(a + 0.5 * (b - a)) }) : rng().uni(a, b);
	return strtod(fmt("%.14g", x).c_str(), nullptr);
}
static double rlog(double a, double b) { return strtod(fmt("%.14g", rng().logu(a, b)).c_str(), nullptr); }

#define ENUM(NAME, GET, SET, T, ...) \
	S.push_back(Setting{NAME, [](Cfg& c) { return num(size_t(c.GET())); }, \
		[](Cfg& c) { T v = pickv<T>({__VA_ARGS__}); c.SET(v); return num(size_t(v)); }, {}});
#define DBL(NAME, GET, SET, GEN, ...) \
	S.push_back(Setting{NAME, [](Cfg& c) { return num(double(c.GET())); }, \
		[](Cfg& c) { double v = GEN; c.SET(v); return num(v); }, {__VA_ARGS__}});
#define INTS(NAME, GET, SET, LO, HI, ...) \
	S.push_back(Setting{NAME, [](Cfg& c) { return num(size_t(c.GET())); }, \
		[](Cfg& c) { long v = rng().flip(0.2) ? (rng().flip() ? LO : HI) : LO + (long) rng().below(std::min<long>(HI - LO, 100000) + 1); \
			c.SET(v); return num(size_t(v)); }, {__VA_ARGS__}});
#define BOOL(NAME, GET, SET) \
	S.push_back(Setting{NAME, [](Cfg& c) { return num(size_t(c.GET())); }, \
		[](Cfg& c) { bool v = rng().flip(); c.SET(v); return num(size_t(v)); }, {}});
#define BAD(CALL) [](Cfg& c) { c.CALL; }

static std::vector<Setting> settings() {
	std::vector<Setting> S;
	const long big = 2147483647L;
	ENUM("advection", getAdvectionScheme, setAdvectionScheme, AdvectionSchemeName, SEDG, SEMI_LAGRANGIAN)
	ENUM("support-points", getSupportPoints, setSupportPoints, SupportPointsName, GAUSS_LOBATTO_POINTS, GAUSS_CHEBYSHEV_POINTS, GAUSS_LOBATTO_CHEBYSHEV_POINTS, EQUIDISTANT_POINTS)
	ENUM("quadrature", getQuadrature, setQuadrature, QuadratureName, QGAUSS_LOBATTO, QGAUSS)
	ENUM("collision", getCollisionScheme, setCollisionScheme, CollisionSchemeName, BGK_STANDARD, BGK_STANDARD_TRANSFORMED, BGK_STEADY_STATE, BGK_MULTIPHASE, BGK_INCOMPRESSIBLE, MRT_STANDARD, MRT_ENTROPIC, ENTROPIC_STABILIZED, KBC_STANDARD, KBC_CENTRAL, BGK_MULTI_AM4, BGK_MULTI_BDF2, BGK_REGULARIZED)
	ENUM("mrt-basis", getMRTBasis, setMRTBasis, MomentBasis, DELLAR_D2Q9, LALLEMAND_D2Q9, DHUMIERES_D3Q19)
	ENUM("mrt-relax", getMRTRelaxationTimes, setMRTRelaxationTimes, RelaxMode, RELAX_FULL, DELLAR_RELAX_ONLY_N, RELAX_DHUMIERES_PAPER)
	ENUM("equilibrium", getEquilibriumScheme, setEquilibriumScheme, EquilibriumSchemeName, BGK_EQUILIBRIUM, QUARTIC_EQUILIBRIUM, INCOMPRESSIBLE_EQUILIBRIUM, STEADYSTATE_EQUILIBRIUM, ENTROPIC_EQUILIBRIUM)
	ENUM("pseudopotential", getPseudopotentialType, setPseudopotentialType, PseudopotentialType, SHAN_CHEN, SUKOP, CARNAHAN_STARLING)
	ENUM("forcing", getForcingScheme, setForcingScheme, ForceType, NO_FORCING, SHIFTING_VELOCITY, EXACT_DIFFERENCE, GUO)
	ENUM("filtering-scheme", getFilteringScheme, setFilteringScheme, FilteringSchemeName, EXPONENTIAL_FILTER, NEW_FILTER)
	ENUM("initialization", getInitializationScheme, setInitializationScheme, InitializationSchemeName, EQUILIBRIUM, ITERATIVE, COMPRESSIBLE_ITERATIVE, GRADIENTS)
	ENUM("flux", getSedgFluxType, setSedgFluxType, FluxTypeName, LAX_FRIEDRICHS, CENTRAL)
	ENUM("stencil", getStencil, setStencil, StencilType, Stencil_D2Q9, Stencil_D3Q13, Stencil_D3Q19, Stencil_D3Q15, Stencil_D3Q21, Stencil_D3Q27, Stencil_RD3Q27, Stencil_D2Q19V, Stencil_D2Q19H, Stencil_D2Q777, Stencil_D2Q25H, Stencil_D3Q45, Stencil_D3Q77, Stencil_D3V27)
	ENUM("time-integrator", getTimeIntegrator, setTimeIntegrator, TimeIntegratorName, RUNGE_KUTTA_5STAGE, THETA_METHOD, EXPONENTIAL, OTHER)
	ENUM("deal-integrator", getDealIntegrator, setDealIntegrator, DealIntegratorName, FORWARD_EULER, RK_THIRD_ORDER, RK_CLASSIC_FOURTH_ORDER, BACKWARD_EULER, IMPLICIT_MIDPOINT, CRANK_NICOLSON, SDIRK_TWO_STAGES, HEUN_EULER, BOGACKI_SHAMPINE, DOPRI, FEHLBERG, CASH_KARP, NONE)
	ENUM("deal-solver", getDealLinearSolver, setDealLinearSolver, DealSolverName, BICGSTAB, CG, FGMRES, GMRES, MINRES, QMRS, RELAXATION, RICHARDSON)
	ENUM("regularization", getRegularizationScheme, setRegularizationScheme, RegularizationSchemeName, NO_REGULARIZATION, PSEUDO_ENTROPY_MAXIMIZATION, ZERO_HIGH_ORDER_MOMENTS, ENTROPY_MAXIMIZATION, PSEUDO_ENTROPY_MAXIMIZATION_WITH_E)
	DBL("ss-gamma", getBGKSteadyStateGamma, setBGKSteadyStateGamma, rd(0, 1), BAD(setBGKSteadyStateGamma(1.5)), BAD(setBGKSteadyStateGamma(-0.1)))
	DBL("pp-G", getBGKPseudopotentialG, setBGKPseudopotentialG, rd(-10, 10), BAD(setBGKPseudopotentialG(-1e11)))
	DBL("pp-T", getBGKPseudopotentialT, setBGKPseudopotentialT, rd(-1, 1), BAD(setBGKPseudopotentialT(1e11)))
	DBL("cfl", getCFL, setCFL, rlog(1e-3, 50), BAD(setCFL(0)), BAD(setCFL(-1)))
	DBL("gamma", getHeatCapacityRatioGamma, setHeatCapacityRatioGamma, rd(1.01, 3), BAD(setHeatCapacityRatioGamma(-1)))
	DBL("t-ref", getReferenceTemperature, setReferenceTemperature, rlog(1e-2, 1e3), BAD(setReferenceTemperature(0)))
	DBL("scaling", getStencilScaling, setStencilScaling, rlog(1e-4, 1e4), BAD(setStencilScaling(0)), BAD(setStencilScaling(-2)))
	DBL("filter-alpha", getExponentialFilterAlpha, setExponentialFilterAlpha, rd(0, 100), BAD(setExponentialFilterAlpha(-1)))
	DBL("filter-s", getExponentialFilterS, setExponentialFilterS, rd(0, 100), BAD(setExponentialFilterS(-1)))
	DBL("filter-Nc", getExponentialFilterNc, setExponentialFilterNc, double(rng().below(51)), BAD(setExponentialFilterNc(51)))
	DBL("init-residual", getIterativeInitializationResidual, setIterativeInitializationResidual, rlog(1e-20, 1), BAD(setIterativeInitializationResidual(0)))
	DBL("end-time", getSimulationEndTime, setSimulationEndTime, rlog(1e-6, 1e6), BAD(setSimulationEndTime(-1)))
	DBL("convergence", getConvergenceThreshold, setConvergenceThreshold, rlog(1e-30, 1), )
	DBL("theta", getThetaMethodTheta, setThetaMethodTheta, rd(0, 1), BAD(setThetaMethodTheta(1.01)))
	INTS("verbosity", getCommandLineVerbosity, setCommandLineVerbosity, 0, 8, BAD(setCommandLineVerbosity(9)), BAD(setCommandLineVerbosity(-1)))
	INTS("filter-interval", getFilterInterval, setFilterInterval, 1, 10000000, BAD(setFilterInterval(0)))
	INTS("init-iterations", getIterativeInitializationNumberOfIterations, setIterativeInitializationNumberOfIterations, 1, big, BAD(setIterativeInitializationNumberOfIterations(0)))
	INTS("steps", getNumberOfTimeSteps, setNumberOfTimeSteps, 1, big, BAD(setNumberOfTimeSteps(0)), BAD(setNumberOfTimeSteps(-5)))
	INTS("checkpoint-interval", getOutputCheckpointInterval, setOutputCheckpointInterval, 1, big, BAD(setOutputCheckpointInterval(0)))
	INTS("table-interval", getOutputTableInterval, setOutputTableInterval, 1, big, BAD(setOutputTableInterval(0)))
	INTS("solution-interval", getOutputSolutionInterval, setOutputSolutionInterval, 1, big, BAD(setOutputSolutionInterval(0)))
	INTS("restart", getRestartAtIteration, setRestartAtIteration, 0, big, BAD(setRestartAtIteration(-1)))
	INTS("order", getSedgOrderOfFiniteElement, setSedgOrderOfFiniteElement, 1, 100, BAD(setSedgOrderOfFiniteElement(0)), BAD(setSedgOrderOfFiniteElement(-3)))
	INTS("wall-direction", getWallNormalDirection, setWallNormalDirection, 0, 3, BAD(setWallNormalDirection(4)))
	BOOL("analytic", hasAnalyticSolution, setHasAnalyticSolution)
	BOOL("filtering", isFiltering, setFiltering)
	BOOL("limiter", isVmultLimiter, setVmultLimiter)
	BOOL("by-sums", isFilterDegreeByComponentSums, setFilterDegreeByComponentSums)
	BOOL("log-file", isWriteALogFile, setWriteALogFile)
	BOOL("output-off", isSwitchOutputOff, setSwitchOutputOff)
	BOOL("turbulence", isOutputTurbulenceStatistics, setOutputTurbulenceStatistics)
	BOOL("global-turbulence", isOutputGlobalTurbulenceStatistics, setOutputGlobalTurbulenceStatistics)
	BOOL("compressible-turbulence", isOutputCompressibleTurbulenceStatistics, setOutputCompressibleTurbulenceStatistics)
	BOOL("interaction", isUserInteraction, setUserInteraction)
	S.push_back(Setting { "directory", [](Cfg& c) { return c.getOutputDirectory(); }, [](Cfg& c) {
		std::string d = "/nowhere/" + fmt("dir%zu-x_%zu.d", rng().below(1000), rng().below(1000)); c.setOutputDirectory(d); return d; }, { } });
	S.push_back(Setting { "embedded", [](Cfg& c) {
		return num(c.getEmbeddedDealIntegratorCoarsenParameter()) + " " + num(c.getEmbeddedDealIntegratorRefinementParameter()) + " "
			+ num(c.getEmbeddedDealIntegratorMinimumCFL()) + " " + num(c.getEmbeddedDealIntegratorMaximumCFL()) + " "
			+ num(c.getEmbeddedDealIntegratorRefinementTolerance()) + " " + num(c.getEmbeddedDealIntegratorCoarsenTolerance()); },
		[](Cfg& c) { double v[6] = { rd(1, 1000), rd(0, 1), rlog(1e-3, 100), rlog(1e-3, 100), rlog(1e-12, 1), rlog(1e-12, 1) };
			c.setEmbeddedDealIntegratorParameters(v[0], v[1], v[2], v[3], v[4], v[5]);
			std::string s = num(v[0]); for (int i = 1; i < 6; i++) s += " " + num(v[i]); return s; }, { } });
	auto join = [](const std::vector<double>& v) { std::string s; for (double x : v) s += num(x) + ";"; return s; };
	S.push_back(Setting { "wall-coordinates", [join](Cfg& c) { return join(c.getWallNormalCoordinates()); }, [join](Cfg& c) {
		std::vector<double> v(rng().below(6));
		for (double& x : v) x = strtod(fmt("%.5g", rng().uni(-100, 100)).c_str(), nullptr);
		c.setWallNormalCoordinates(v); return join(v); }, { } });
	// Prandtl number and Sutherland's law have a flag that comes with them and cannot be taken back
	S.push_back(Setting { "prandtl", [](Cfg& c) { return num(c.getPrandtlNumber()) + (c.isPrandtlNumberSet() ? " set" : " unset"); },
		[](Cfg& c) { double v = rlog(1e-2, 1e2); c.setPrandtlNumber(v); return num(v) + " set"; }, { BAD(setPrandtlNumber(0)) } });
	S.push_back(Setting { "sutherland", [](Cfg& c) { return std::string(c.isSutherlandLawSet() ? "set" : "unset"); },
		[](Cfg& c) { c.setSutherlandLaw(); return std::string("set"); }, { } });
	return S;
}

static void compare(Cfg& c, const std::vector<Setting>& S, const std::map<std::string, std::string>& model, const std::string& key, const std::string& when) {
	for (const Setting& s : S) {
		std::string got;
		try { got = s.get(c); } catch (std::exception& e) { got = std::string("exception ") + e.what(); }
		check(got == model.at(s.name), key + ":" + s.name, when + ": is " + got + ", expected " + model.at(s.name));
	}
	seen_n(S.size());
}

static void one_config(size_t round) {
	std::vector<Setting> S = settings();
	Cfg c;
	std::map<std::string, std::string> model;
	for (const Setting& s : S) model[s.name] = s.get(c);
	size_t steps = round % 4 == 0 ? 3 : 25;
	std::string trace;
	for (size_t k = 0; k < steps; k++) {
		const Setting& s = S[rng().below(S.size())];
		if (!s.bad.empty() && rng().flip(0.3)) {
			size_t b = rng().below(s.bad.size());
			bool refused = false;
			try { s.bad[b](c); } catch (ConfigurationException& e) { refused = true; }
			check(refused, "config:accepted:" + s.name, fmt("illegal value %zu", b));
			trace += s.name + " refused; ";
			compare(c, S, model, "config:after-refusal", "after a refused " + s.name);
			metric("refused assignments");
		} else {
			std::string v;
			try { v = s.set(c); } catch (ConfigurationException& e) {
				violation("config:refused:" + s.name, e.what());
				continue;
			}
			model[s.name] = v;
			trace += s.name + "=" + v + "; ";
			compare(c, S, model, "config:set", "after setting " + s.name);
			metric("assignments");
		}
	}
	seen(trace);
	if (round < 2) sample(trace.substr(0, 300));
	std::string xml = st().scratch + "/c.xml", prm = st().scratch + "/c.prm";
	{ std::ofstream o(xml); c.print_parameters(o, dealii::ParameterHandler::XML); }
	{ std::ofstream o(prm); c.print_parameters(o, dealii::ParameterHandler::Text); }
	// read back, over defaults and over other values
	Cfg a;
	if (rng().flip()) for (int k = 0; k < 10; k++) { const Setting& s = S[rng().below(S.size())]; s.set(a); }
	Cfg b;
	if (rng().flip()) for (int k = 0; k < 10; k++) { const Setting& s = S[rng().below(S.size())]; s.set(b); }
	try { a.readFromXMLFile(xml); compare(a, S, model, "config:xml", "read from XML"); }
	catch (std::exception& e) { violation("config:xml-unreadable", e.what()); }
	try { b.readFromTextFile(prm); compare(b, S, model, "config:text", "read from text"); }
	catch (std::exception& e) { violation("config:text-unreadable", e.what()); }
	try { Cfg d(xml); compare(d, S, model, "config:constructor", "constructed from XML"); }
	catch (std::exception& e) { violation("config:constructor-failed", e.what()); }
	// every line of the XML file names a known setting; a damaged file is refused
	std::ifstream in(xml);
	std::string text((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
	Cfg bad;
	std::map<std::string, std::string> def;
	for (const Setting& s : S) def[s.name] = s.get(bad);
	std::string broken = text.substr(0, text.size() / 2);
	{ std::ofstream o(xml); o << broken; }
	bool refused = false;
	try { bad.readFromXMLFile(xml); } catch (std::exception&) { refused = true; }
	check(refused, "config:truncated-file-accepted", "half of an XML file");
	compare(bad, S, def, "config:truncated-file", "after a truncated file");
	refused = false;
	try { Cfg e; e.readFromTextFile(st().scratch + "/nofile.prm"); } catch (std::exception&) { refused = true; }
	check(refused, "config:missing-file-accepted", "text");
	refused = false;
	try { Cfg e; e.readFromXMLFile(st().scratch + "/nofile.xml"); } catch (std::exception&) { refused = true; }
	check(refused, "config:missing-file-accepted", "xml");
	{ std::ofstream o(prm); o << "subsection General\n  set Stencil = D5Q1\nend\n"; }
	refused = false;
	try { Cfg e; e.readFromTextFile(prm); } catch (std::exception&) { refused = true; }
	check(refused, "config:bad-value-accepted", "text");
	{ std::ofstream o(prm); o << "subsection General\n  set No such entry = 1\nend\n"; }
	refused = false;
	try { Cfg e; e.readFromTextFile(prm); } catch (std::exception&) { refused = true; }
	check(refused, "config:unknown-entry-accepted", "text");
}

// whether the settings fit together
static void consistency() {
	Cfg c;
	auto refused = [](Cfg& c) { try { c.isConsistent(); return false; } catch (ConfigurationException&) { return true; } };
	for (size_t k = 0; k < scale(200, 2000); k++) {
		TimeIntegratorName t = pickv<TimeIntegratorName>( { RUNGE_KUTTA_5STAGE, THETA_METHOD, EXPONENTIAL, OTHER });
		DealIntegratorName d = pickv<DealIntegratorName>( { FORWARD_EULER, DOPRI, CRANK_NICOLSON, NONE });
		CollisionSchemeName s = pickv<CollisionSchemeName>( { BGK_STANDARD, BGK_MULTIPHASE, KBC_STANDARD });
		ForceType f = pickv<ForceType>( { NO_FORCING, GUO, SHIFTING_VELOCITY });
		c.setTimeIntegrator(t); c.setDealIntegrator(d); c.setCollisionScheme(s); c.setForcingScheme(f);
		bool bad = (t == OTHER && d == NONE) || (s == BGK_MULTIPHASE && f == NO_FORCING);
		check(refused(c) == bad, "config:consistency", fmt("integrator %d deal %d collision %d force %d", t, d, s, f));
		seen(fmt("%d %d %d %d", t, d, s, f));
	}
}

// ---------------------------------------------------------------- command line
struct Opt {
	std::string flag;
	std::vector<std::string> touches;
	// text, effect
	std::vector<std::pair<std::string, std::function<void(std::map<std::string, std::string>&)> > > values;
	bool has_value;
	std::vector<std::string> illegal;
};
typedef std::map<std::string, std::string> Model;
static std::string E(long v) { return num(size_t(v)); }

static std::vector<Opt> options() {
	std::vector<Opt> O;
	auto pick = [&](const std::string& flag, const std::string& target, const std::vector<std::pair<std::string, long> >& v) {
		Opt o { flag, { target }, { }, true, { "nonsense", "" } };
		for (auto& p : v) { long e = p.second; o.values.push_back( { p.first, [target, e](Model& m) { m[target] = E(e); } }); }
		O.push_back(o);
	};
	pick("streaming", "advection", { { "sedg", SEDG }, { "sl", SEMI_LAGRANGIAN } });
	pick("collision", "collision", { { "bgk", BGK_STANDARD }, { "bgkt", BGK_STANDARD_TRANSFORMED }, { "inc", BGK_INCOMPRESSIBLE }, { "pp", BGK_MULTIPHASE }, { "ss", BGK_STEADY_STATE },
		{ "mrt", MRT_STANDARD }, { "kbcs", KBC_STANDARD }, { "kbcc", KBC_CENTRAL }, { "am4", BGK_MULTI_AM4 }, { "bdf2", BGK_MULTI_BDF2 }, { "reg", BGK_REGULARIZED }, { "est", ENTROPIC_STABILIZED } });
	pick("equilibrium", "equilibrium", { { "bgk", BGK_EQUILIBRIUM }, { "quartic", QUARTIC_EQUILIBRIUM } });
	pick("regularization", "regularization", { { "no", NO_REGULARIZATION }, { "pem", PSEUDO_ENTROPY_MAXIMIZATION }, { "zero", ZERO_HIGH_ORDER_MOMENTS }, { "em", ENTROPY_MAXIMIZATION }, { "pemwe", PSEUDO_ENTROPY_MAXIMIZATION_WITH_E } });
	pick("support-points", "support-points", { { "gll", GAUSS_LOBATTO_POINTS }, { "glc", GAUSS_LOBATTO_CHEBYSHEV_POINTS }, { "gc", GAUSS_CHEBYSHEV_POINTS }, { "equi", EQUIDISTANT_POINTS } });
	pick("stencil", "stencil", { { "d2q9", Stencil_D2Q9 }, { "d3q19", Stencil_D3Q19 }, { "d3q15", Stencil_D3Q15 }, { "d3q27", Stencil_D3Q27 }, { "d3q21", Stencil_D3Q21 }, { "d3q13", Stencil_D3Q13 },
		{ "rd3q27", Stencil_RD3Q27 }, { "d2q19h", Stencil_D2Q19H }, { "d2q19v", Stencil_D2Q19V }, { "d2q777", Stencil_D2Q777 }, { "d2q25h", Stencil_D2Q25H }, { "d3q45", Stencil_D3Q45 }, { "d3q77", Stencil_D3Q77 }, { "d3v27", Stencil_D3V27 } });
	pick("init", "initialization", { { "equi", EQUILIBRIUM }, { "iter", ITERATIVE } });
	pick("mrt-basis", "mrt-basis", { { "dellar-d2q9", DELLAR_D2Q9 }, { "lallemand-d2q9", LALLEMAND_D2Q9 }, { "dhumieres-d3q19", DHUMIERES_D3Q19 } });
	pick("mrt-relax", "mrt-relax", { { "full", RELAX_FULL }, { "dellar-only-N", DELLAR_RELAX_ONLY_N }, { "dhumieres-paper", RELAX_DHUMIERES_PAPER } });
	struct In { const char* n; TimeIntegratorName t; DealIntegratorName d; };
	std::vector<In> ins = { { "rk4", RUNGE_KUTTA_5STAGE, NONE }, { "theta", THETA_METHOD, NONE }, { "exp", EXPONENTIAL, NONE }, { "ee", OTHER, FORWARD_EULER }, { "rk3", OTHER, RK_THIRD_ORDER },
		{ "rk4_2", OTHER, RK_CLASSIC_FOURTH_ORDER }, { "ie", OTHER, BACKWARD_EULER }, { "midpoint", OTHER, IMPLICIT_MIDPOINT }, { "cn", OTHER, CRANK_NICOLSON }, { "sdirk", OTHER, SDIRK_TWO_STAGES },
		{ "heun-euler", OTHER, HEUN_EULER }, { "bogacki", OTHER, BOGACKI_SHAMPINE }, { "dopri", OTHER, DOPRI }, { "fehlberg", OTHER, FEHLBERG }, { "cash-karp", OTHER, CASH_KARP } };
	Opt a { "integrator", { "time-integrator", "deal-integrator" }, { }, true, { "nonsense" } }, b { "integrator-id", { "time-integrator", "deal-integrator" }, { }, true, { "0", "16", "-1", "x" } };
	for (size_t i = 0; i < ins.size(); i++) {
		In n = ins[i];
		auto f = [n](Model& m) { m["time-integrator"] = E(n.t); m["deal-integrator"] = E(n.d); };
		a.values.push_back( { n.n, f });
		b.values.push_back( { fmt("%zu", i + 1), f });
	}
	O.push_back(a);
	O.push_back(b);
	auto real = [&](const std::string& flag, const std::string& target, double lo, double hi, std::vector<std::string> ill) {
		Opt o { flag, { target }, { }, true, ill };
		for (int i = 0; i < 6; i++) { double v = rlog(lo, hi); o.values.push_back( { fmt("%.15g", v), [target, v](Model& m) { m[target] = num(v); } }); }
		O.push_back(o);
	};
	real("cfl", "cfl", 1e-3, 50, { "0", "-1", "abc" });
	real("scaling", "scaling", 1e-3, 1e3, { "0", "-1", "abc" });
	real("tmax", "end-time", 1e-3, 1e3, { "-1", "abc" });
	real("init-res", "init-residual", 1e-12, 1, { "0", "abc" });
	auto whole = [&](const std::string& flag, const std::string& target, bool on, int hi, std::vector<std::string> ill) {
		Opt o { flag, { target }, { }, true, ill };
		for (int i = 0; i < 6; i++) { size_t v = 1 + rng().below(hi); o.values.push_back( { fmt("%zu", v), [target, v, on](Model& m) { m[target] = num(v); if (on) m["output-off"] = "0"; } }); }
		O.push_back(o);
	};
	whole("order-fe", "order", false, 12, { "0", "-2", "two" });
	whole("output-sol", "solution-interval", true, 100000, { "0", "x" });
	whole("output-chk", "checkpoint-interval", true, 100000, { "0", "x" });
	whole("output-tab", "table-interval", true, 100000, { "0", "x" });
	whole("init-niter", "init-iterations", false, 10000, { "0", "x" });
	Opt dir { "output-dir", { "directory" }, { }, true, { } };
	dir.values.push_back( { "/nowhere/o1", [](Model& m) { m["directory"] = "/nowhere/o1"; m["output-off"] = "0"; } });
	dir.values.push_back( { "/nowhere/a b", [](Model& m) { m["directory"] = "/nowhere/a b"; m["output-off"] = "0"; } });
	O.push_back(dir);
	O.push_back(Opt { "output-on", { }, { { "", [](Model& m) { m["output-off"] = "0"; } } }, false, { } });
	O.push_back(Opt { "verbose", { "verbosity" }, { { "", [](Model& m) { m["verbosity"] = "8"; m["output-off"] = "0"; } } }, false, { } });
	return O;
}

struct Args {
	std::vector<std::string> s;
	std::vector<char*> p;
	char** argv() { p.clear(); for (auto& x : s) p.push_back(&x[0]); p.push_back(nullptr); return p.data(); }
	int argc() { return s.size(); }
};
// 0 fine, 1 refused at import, 2 refused on application
static int apply(const std::vector<std::string>& a, Cfg& c, std::string& what) {
	Args args;
	args.s = { "prog" };
	args.s.insert(args.s.end(), a.begin(), a.end());
	char** v = args.argv();
	CommandLineParser p(args.argc(), v);
	try { p.importOptions(); } catch (std::exception& e) { what = e.what(); return 1; }
	try { p.applyToSolverConfiguration(c); } catch (std::exception& e) { what = e.what(); return 2; }
	return 0;
}

static void one_cmdline(size_t round) {
	std::vector<Setting> S = settings();
	std::vector<Opt> O = options();
	Cfg c;
	c.setSwitchOutputOff(true);
	for (int k = 0; k < 5; k++) S[rng().below(S.size())].set(c);
	Model model;
	for (const Setting& s : S) model[s.name] = s.get(c);
	Model before = model;
	// a random set of options that do not talk about the same setting
	size_t n = round % 3 == 0 ? 1 : 1 + rng().below(8);
	std::set<std::string> used;
	std::vector<std::string> args;
	std::vector<const Opt*> chosen;
	for (size_t k = 0; k < n; k++) {
		const Opt& o = O[round % 3 == 0 ? (round / 3) % O.size() : rng().below(O.size())];
		bool clash = used.count(o.flag);
		for (auto& t : o.touches) clash |= used.count(t) > 0;
		if (clash) continue;
		used.insert(o.flag);
		for (auto& t : o.touches) used.insert(t);
		auto& v = o.values[rng().below(o.values.size())];
		if (!o.has_value) args.push_back("--" + o.flag);
		else if (rng().flip()) args.push_back("--" + o.flag + "=" + v.first);
		else { args.push_back("--" + o.flag); args.push_back(v.first); }
		v.second(model);
		chosen.push_back(&o);
	}
	std::string line, what;
	for (auto& a : args) line += a + " ";
	int r = apply(args, c, what);
	if (check(r == 0, "cmdline:refused", line + what)) compare(c, S, model, "cmdline", line);
	seen(line);
	if (round < 2) sample(line);
	// every value of the option on its own, and each illegal one
	for (const Opt* o : chosen) {
		if (!o->has_value) continue;
		for (auto& bad : o->illegal) {
			Cfg d;
			std::vector<std::string> a = { "--" + o->flag + "=" + bad };
			check(apply(a, d, what) != 0, "cmdline:accepted:" + o->flag, a[0]);
			seen(a[0]);
		}
	}
	// the order of options does not matter
	std::vector<std::string> rev;
	for (size_t i = args.size(); i > 0;) {
		i--;
		if (args[i].substr(0, 2) != "--") { rev.push_back(args[i - 1]); rev.push_back(args[i]); i--; }
		else rev.push_back(args[i]);
	}
	Cfg e;
	std::vector<std::string> names;
	Model back = model;
	if (apply(rev, c, what) == 0) compare(c, S, model, "cmdline:order", "reversed " + line);
	else violation("cmdline:order", "reversed refused " + line + what);
}

static void conflicts() {
	std::string what;
	std::vector<std::vector<std::string> > bad = {
		{ "--standard-lbm", "--cfl=1" }, { "--standard-lbm", "--order-fe=3" }, { "--standard-lbm", "--streaming=sedg" },
		{ "--standard-lbm", "--standard-lbm-with=3" }, { "--standard-lbm-with=3", "--cfl=1" }, { "--standard-lbm-with=3", "--streaming=sedg" },
		{ "--integrator=rk4", "--integrator-id=1" }, { "--no-such-option" }, { "--cfl" }, { "positional" }, { "--help" }, { "--cfl=1", "--cfl=2" } };
	for (auto& a : bad) {
		Cfg c;
		std::string l;
		for (auto& x : a) l += x + " ";
		check(apply(a, c, what) != 0, "cmdline:conflict-accepted", l);
		seen(l);
	}
	for (int order = 1; order <= 8; order++) {
		Cfg c;
		std::vector<std::string> a = { fmt("--standard-lbm-with=%d", order) };
		if (order == 2 && rng().flip()) a = { "--standard-lbm" };
		check(apply(a, c, what) == 0, "cmdline:refused", a[0] + what);
		// a step moves the populations by exactly one node: dt |e| = dx / order with equal spacing
		check(c.getAdvectionScheme() == SEMI_LAGRANGIAN && c.getSedgOrderOfFiniteElement() == (size_t) order, "cmdline:standard-lbm", a[0]);
		double dt_u = c.getCFL() / (order * order * std::sqrt(2.0)); // step times lattice speed by cell size
		near(dt_u, 1.0 / order, 1e-12, "cmdline:standard-lbm-step", a[0]);
		if (order > 2) check(c.getSupportPoints() == EQUIDISTANT_POINTS, "cmdline:standard-lbm-points", a[0]);
		seen(a[0]);
	}
	// arguments a program defines itself
	for (size_t k = 0; k < scale(60, 600); k++) {
		double x = rlog(1e-3, 1e3), dx = rlog(1e-3, 1e3);
		int i = rng().below(1000), di = rng().below(1000);
		bool give_x = rng().flip(), give_i = rng().flip(), give_s = rng().flip(), give_f = rng().flip();
		std::string sv = fmt("word%zu", rng().below(100)), dsv = fmt("default%zu", rng().below(100));
		Args args;
		args.s = { "prog" };
		if (give_i) args.s.push_back(fmt("%d", i));
		if (give_x) args.s.push_back(fmt("--my-x=%.15g", x));
		if (give_s) { args.s.push_back("--my-s"); args.s.push_back(sv); }
		if (give_f) args.s.push_back("--my-flag");
		char** v = args.argv();
		CommandLineParser p(args.argc(), v);
		p.setPositionalArgument<int>("number", "a number");
		p.setArgument<double>("my-x", "x", dx);
		p.setArgument<string>("my-s", "s", dsv);
		p.setArgument<int>("my-i", "i", di);
		p.setFlag("my-flag", "flag");
		bool early = false;
		try { p.hasArgument("my-x"); } catch (CommandLineParserException&) { early = true; }
		check(early, "cmdline:read-before-import", "");
		p.importOptions();
		near(p.getArgument<double>("my-x"), give_x ? x : dx, 1e-12 * (give_x ? x : dx), "cmdline:own-double", "");
		check(p.getArgument<string>("my-s") == (give_s ? sv : dsv), "cmdline:own-string", "");
		check(p.getArgument<int>("my-i") == di, "cmdline:own-int", "");
		check(p.hasArgument("my-flag") == give_f, "cmdline:own-flag", "");
		check(p.hasArgument("number") == give_i, "cmdline:own-positional", "");
		if (give_i) check(p.getArgument<int>("number") == i, "cmdline:own-positional", "");
		else {
			bool r = false;
			try { p.getArgument<int>("number"); } catch (CommandLineParserException&) { r = true; }
			check(r, "cmdline:missing-argument", "");
		}
		bool late = false;
		try { p.setFlag("other", "x"); } catch (CommandLineParserException&) { late = true; }
		check(late, "cmdline:defined-after-import", "");
		seen(fmt("own %zu", k));
	}
}

void vh_cases(Suite& s) {
	for (size_t k = 0; k < scale(16, 16); k++) {
		s.push_back( { fmt("config %zu", k), [k] { for (size_t r = 0; r < scale(12, 150); r++) one_config(r + k); } });
		s.push_back( { fmt("cmdline %zu", k), [k] { for (size_t r = 0; r < scale(24, 300); r++) one_cmdline(r + 24 * k); } });
	}
	s.push_back( { "config consistency", consistency });
	s.push_back( { "cmdline conflicts", conflicts });
}

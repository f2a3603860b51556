// Symbols that clang names or leaves out differently from the gcc that built deal.II.
#include "natrium/benchmarks/../problemdescription/Benchmark.h"
#include <deal.II/lac/trilinos_sparse_matrix.h>
typedef dealii::TrilinosWrappers::MPI::Vector V;
extern "C" {
void vh_gcc_vmult(const void*, V&, const V&)
__asm__("_ZNK6dealii16TrilinosWrappers12SparseMatrix5vmultINS0_3MPI6VectorEEENSt9enable_ifIXsrSt7is_sameINT_10value_typeEdE5valueEvE4typeERS7_RKS7_");
void vh_clang_vmult(const void*, V&, const V&)
__asm__("_ZNK6dealii16TrilinosWrappers12SparseMatrix5vmultINS0_3MPI6VectorEEENSt9enable_ifIXsr3std7is_sameINT_10value_typeEdEE5valueEvE4typeERS6_RKS6_");
void vh_gcc_Tvmult(const void*, V&, const V&)
__asm__("_ZNK6dealii16TrilinosWrappers12SparseMatrix6TvmultINS0_3MPI6VectorEEENSt9enable_ifIXsrSt7is_sameINT_10value_typeEdE5valueEvE4typeERS7_RKS7_");
void vh_clang_Tvmult(const void*, V&, const V&)
__asm__("_ZNK6dealii16TrilinosWrappers12SparseMatrix6TvmultINS0_3MPI6VectorEEENSt9enable_ifIXsr3std7is_sameINT_10value_typeEdEE5valueEvE4typeERS6_RKS6_");
void vh_clang_vmult(const void* t, V& a, const V& b) { vh_gcc_vmult(t, a, b); }
void vh_clang_Tvmult(const void* t, V& a, const V& b) { vh_gcc_Tvmult(t, a, b); }
}
// implicit destructors that clang refers to without emitting them
template<size_t d> struct P { boost::shared_ptr<natrium::Benchmark<d> > p; };
extern "C" {
#define VH_DTOR(d, k) \
	__attribute__((weak)) void vh_dtor_##d##k(boost::shared_ptr<natrium::Benchmark<d> >* p) \
	__asm__("_ZN5boost10shared_ptrIN7natrium9BenchmarkILm" #d "EEEED" #k "Ev"); \
	void vh_dtor_##d##k(boost::shared_ptr<natrium::Benchmark<d> >* p) { \
		struct Raw { void* px; boost::detail::sp_counted_base* pi; }; \
		Raw* r = reinterpret_cast<Raw*>(p); \
		if (r->pi) r->pi->release(); \
	}
VH_DTOR(2, 1)
VH_DTOR(3, 1)
VH_DTOR(2, 2)
VH_DTOR(3, 2)
}

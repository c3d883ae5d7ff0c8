// Stand-in for the sysops dependency (not available offline): declarations only, so the verifier
// sees these as external functions with an assumed contract (the POSIX ones).
#ifndef verif_sysops_memory_ops_h
#define verif_sysops_memory_ops_h
#include <cstddef>
namespace sysops { namespace memory { namespace ops {
int posix_memalign(void **aPtr, std::size_t aAlignment, std::size_t aSize) noexcept;
void free(void *aPtr) noexcept;
}}}
#endif

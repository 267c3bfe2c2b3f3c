// one element type of the vector world, chosen by -DELEM
#include "vector_impl.hpp"
namespace vw {
template <int N>
std::unique_ptr<ExecBase> make_elem();
#define PICK(n, t)                                  \
    template <>                                     \
    std::unique_ptr<ExecBase> make_elem<n>() {      \
        return std::make_unique<Exec<t>>();         \
    }
#if ELEM == 0
PICK(0, int)
#endif
#if ELEM == 1
PICK(1, u8)
#endif
#if ELEM == 2
PICK(2, Odd)
#endif
#if ELEM == 3
PICK(3, Big)
#endif
#if ELEM == 4
PICK(4, Reloc)
#endif
#if ELEM == 5
PICK(5, MoveOnly)
#endif
#if ELEM == 6
PICK(6, CopyOnly)
#endif
#if ELEM == 7
PICK(7, Ordinary)
#endif
#if ELEM == 8
PICK(8, Legacy)
#endif
#if ELEM == 9
PICK(9, Handle)
#endif
#if ELEM == 10
PICK(10, Str)
#endif
#if ELEM == 11
PICK(11, Giant)
#endif
#if ELEM == 12
PICK(12, Preset)
#endif
#if ELEM == 13
PICK(13, MemPtr)
#endif
#if ELEM == 14
PICK(14, Tag)
#endif
}  // namespace vw

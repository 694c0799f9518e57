#ifndef SYMX_OI
#define SYMX_OI
#include <iosfwd>
namespace std {
template <typename C, typename T> basic_ostream<C, T>& __ostream_insert(basic_ostream<C, T>& os, const C* s, streamsize n) { os.put_padded(s, n); return os; }
}
#endif

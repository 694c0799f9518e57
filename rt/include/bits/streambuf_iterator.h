#ifndef SYMX_SBI
#define SYMX_SBI
#include <ios>
#include <bits/stl_iterator_base_types.h>
namespace std {
template <typename C, typename T> class istreambuf_iterator {
  basic_streambuf<C, T>* b_;
 public:
  typedef input_iterator_tag iterator_category; typedef C value_type; typedef typename T::off_type difference_type; typedef C* pointer; typedef C reference;
  istreambuf_iterator() : b_(nullptr) {}
  istreambuf_iterator(basic_istream<C, T>& s) : b_(s.rdbuf()) {}
  istreambuf_iterator(basic_streambuf<C, T>* s) : b_(s) {}
  C operator*() const { return (C)b_->sgetc(); }
  istreambuf_iterator& operator++() { b_->sbumpc(); return *this; }
  istreambuf_iterator operator++(int) { istreambuf_iterator o = *this; b_->sbumpc(); return o; }
  bool end() const { return !b_ || b_->g_ >= b_->buf_.size(); }
  bool equal(const istreambuf_iterator& o) const { return end() == o.end(); }
};
template <typename C, typename T> inline bool operator==(const istreambuf_iterator<C, T>& a, const istreambuf_iterator<C, T>& b) { return a.equal(b); }
template <typename C, typename T> inline bool operator!=(const istreambuf_iterator<C, T>& a, const istreambuf_iterator<C, T>& b) { return !a.equal(b); }
template <typename C, typename T> class ostreambuf_iterator {};
}
#endif

// lib.h - conversions between the model and the library under test
#ifndef LIB_H
#define LIB_H
#include "model.h"
#include <ringing/common.h>
#include <ringing/bell.h>
#include <ringing/row.h>
#include <ringing/change.h>
#include <ringing/method.h>
#include <ringing/place_notation.h>

namespace lib {
using namespace ringing;
using std::string; using std::vector;
using model::perm;

inline row to_row(perm const& p) {
  vector<bell> v; for (int x : p) v.push_back(bell(x));
  return row(v);
}
inline perm from_row(row const& r) {
  perm p; for (int i=0; i<r.bells(); ++i) p.push_back((int)r[i]); return p;
}
inline change to_change(perm const& c) {
  vector<bell> pl; for (int p : model::places(c)) pl.push_back(bell(p));
  return change(c.size(), pl);
}
// Reads a change through what it does to places
inline perm from_change(change const& c) {
  perm p; for (int i=0; i<c.bells(); ++i) p.push_back((int)(bell(i) * c)); return p;
}
}
namespace pbt {
template <> inline std::string show(ringing::row const& r) { return model::text(lib::from_row(r)); }
template <> inline std::string show(ringing::change const& c)
  { return std::to_string(c.bells()) + ":" + model::full_pn(lib::from_change(c)); }
}
#endif

// C08: labels and objects are in one-to-one correspondence.  Bounds: K conversions of objects drawn from a domain of D values (all symbolic).
#include "sx.h"
#include <vector>
#include <algorithm>
#include "qlmps/one_dim_tn/mpo/mpogen/fsm.h"
extern "C" void sx_main() {
  const size_t K = sx_param("K", 4); const long D = sx_param("D", 1000000); const int withid = (int)sx_concretize(sx_range("with_identity", 0, 1));
  long id = sx_range("id", -D, D); LabelConvertor<long> conv = withid ? LabelConvertor<long>(id) : LabelConvertor<long>();
  std::vector<long> objs; std::vector<size_t> labs; if (withid) { objs.push_back(id); labs.push_back(0); }
  for (size_t k = 0; k < K; ++k) {
    long o = sx_range("obj", -D, D); size_t l = conv.Convert(o); auto map = conv.GetLabelObjMapping();
    sx_assert(l < map.size() && map[l] == o, "the mapping takes the label back to the object");
    sx_assert(conv.Convert(o) == l, "the same object always gets the same label"); sx_assert(conv.GetLabelObjMapping().size() == map.size(), "looking an object up again adds nothing");
    for (size_t i = 0; i < objs.size(); ++i) { sx_assert((objs[i] == o) == (labs[i] == l), "distinct objects get distinct labels"); sx_assert(map[labs[i]] == objs[i], "labels handed out earlier keep their object"); }
    objs.push_back(o); labs.push_back(l);
  }
  auto map = conv.GetLabelObjMapping(); for (size_t i = 0; i < map.size(); ++i) { bool seen = false; for (size_t j = 0; j < labs.size(); ++j) seen = seen || labs[j] == i; sx_assert(seen, "labels are dense: every label below the mapping's size was handed out"); }
  if (withid) { sx_assert(map.size() >= 1 && map[0] == id, "label 0 is the identity object"); sx_reach("identity"); }
  LabelConvertor<long> c2; c2 = conv; if (!objs.empty()) sx_assert(c2.Convert(objs.back()) == labs.back(), "a copy of the convertor knows the labels");
  if (map.size() == K + (size_t)withid) sx_reach("all distinct"); if (map.size() < K) sx_reach("some repeated");
}

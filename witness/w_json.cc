// Witness: parsing JSON into every kind of type, in every format, and patching.
#include <array>
#include "typesystem/struct.h"
#include "typesystem/variant.h"
#include "typesystem/optional.h"
#include "typesystem/serialization/json.h"
namespace verif_json {
CURRENT_ENUM(EnumI, int32_t){A = 1, B = 2};
CURRENT_ENUM(EnumU, uint16_t){C = 1, D = 2};
CURRENT_ENUM(EnumS, int16_t){E = 1, F = 2};
CURRENT_ENUM(EnumL, uint64_t){G = 1, H = 2};
CURRENT_STRUCT(Empty) {};
CURRENT_STRUCT(Base) { CURRENT_FIELD(x, int32_t); };
CURRENT_STRUCT(Derived, Base) { CURRENT_FIELD(y, std::string); };
CURRENT_VARIANT(Var, Base, Derived, Empty);
CURRENT_STRUCT(Scalars) {
  CURRENT_FIELD(u8, uint8_t);
  CURRENT_FIELD(u16, uint16_t);
  CURRENT_FIELD(u32, uint32_t);
  CURRENT_FIELD(u64, uint64_t);
  CURRENT_FIELD(i8, int8_t);
  CURRENT_FIELD(i16, int16_t);
  CURRENT_FIELD(i32, int32_t);
  CURRENT_FIELD(i64, int64_t);
  CURRENT_FIELD(c, char);
  CURRENT_FIELD(f, float);
  CURRENT_FIELD(d, double);
  CURRENT_FIELD(b, bool);
  CURRENT_FIELD(s, std::string);
  CURRENT_FIELD(ms, std::chrono::milliseconds);
  CURRENT_FIELD(us, std::chrono::microseconds);
  CURRENT_FIELD(ei, EnumI);
  CURRENT_FIELD(eu, EnumU);
  CURRENT_FIELD(es, EnumS);
  CURRENT_FIELD(el, EnumL);
  CURRENT_FIELD(t, current::reflection::TypeID);
};
CURRENT_STRUCT(Containers) {
  CURRENT_FIELD(v, std::vector<int32_t>);
  CURRENT_FIELD(vb, std::vector<bool>);
  CURRENT_FIELD(p, (std::pair<int32_t, std::string>));
  CURRENT_FIELD(m, (std::map<int32_t, std::string>));
  CURRENT_FIELD(ms, (std::map<std::string, int32_t>));
  CURRENT_FIELD(um, (std::unordered_map<int32_t, std::string>));
  CURRENT_FIELD(ums, (std::unordered_map<std::string, int32_t>));
  CURRENT_FIELD(st, std::set<int32_t>);
  CURRENT_FIELD(ust, std::unordered_set<int32_t>);
  CURRENT_FIELD(o, Optional<int32_t>);
  CURRENT_FIELD(derived, Derived);
  CURRENT_FIELD(w, Var);
};
using array_t = std::array<int32_t, 3>;
using tuple_t = std::tuple<int32_t, std::string, bool>;
template <typename T, class J>
void use(const char* c, const std::string& s, const current::strings::Chunk& k) {
  T t;
  ParseJSON<T, J>(c, t);
  ParseJSON<T, J>(s, t);
  ParseJSON<T, J>(k, t);
  ParseJSON<T, J>(c);
  ParseJSON<T, J>(s);
  ParseJSON<T, J>(k);
  TryParseJSON<T, J>(c);
  TryParseJSON<T, J>(s);
  TryParseJSON<T, J>(k);
}
template <typename T, class J>
void patch(T& t, const char* c, const std::string& s, const current::strings::Chunk& k) {
  PatchObjectWithJSON<T, J>(t, c);
  PatchObjectWithJSON<T, J>(t, s);
  PatchObjectWithJSON<T, J>(t, k);
}
template <class J>
void format(const char* c, const std::string& s, const current::strings::Chunk& k) {
  use<Scalars, J>(c, s, k);
  use<Containers, J>(c, s, k);
  array_t a;
  tuple_t t;
  ParseJSON<array_t, J>(c, a);
  ParseJSON<tuple_t, J>(c, t);
}
void use_all(const char* c, const std::string& s, const current::strings::Chunk& k) {
  format<JSONFormat::Current>(c, s, k);
  format<JSONFormat::Minimalistic>(c, s, k);
  format<JSONFormat::JavaScript>(c, s, k);
  use<Scalars, JSONFormat::NewtonsoftFSharp>(c, s, k);
  use<Containers, JSONFormat::NewtonsoftFSharp>(c, s, k);
  Scalars x;
  patch<Scalars, JSONFormat::Current>(x, c, s, k);
  patch<Scalars, JSONFormat::Minimalistic>(x, c, s, k);
  Containers y;
  patch<Containers, JSONFormat::Current>(y, c, s, k);
  patch<Containers, JSONFormat::Minimalistic>(y, c, s, k);
  array_t a;
  tuple_t t;
  PatchObjectWithJSON(a, c);
  PatchObjectWithJSON(t, c);
}
}  // namespace verif_json

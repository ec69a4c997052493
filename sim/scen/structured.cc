#include "structured.h"
#include <algorithm>

namespace w {
using namespace vrs;
using sim::fail;
const char* const kKindNames[kKinds] = {"value", "array", "vector", "string", "map"};

string FVal::str() const {
  string s = "[";
  for (size_t i = 0; i < elems.size() && i < 4; i++) {
    if (i) s += ", ";
    if (i < keys.size()) s += "\"" + keys[i] + "\": ";
    static const char* hex = "0123456789abcdef";
    for (size_t k = 0; k < elems[i].size() && k < 16; k++) { s += hex[(uint8_t)elems[i][k] >> 4]; s += hex[elems[i][k] & 15]; }
    if (elems[i].size() > 16) s += "..";
  }
  return s + (elems.size() > 4 ? ", ...]" : "]") + " x" + std::to_string(elems.size());
}
bool FieldSpec::matches(const FieldSpec& o) const { return kind == o.kind && elem == o.elem && label == o.label && (kind != kArray || count == o.count); }
string FieldSpec::str() const { return string(kKindNames[kind]) + "<" + elem->name + (kind == kArray ? "," + std::to_string(count) : "") + "> " + label; }

namespace {
template <class T> T fromBytes(const string& s) { T v; memcpy((void*)std::addressof(v), s.data(), sizeof(T)); return v; }
template <class T> string toBytes(const T& v) { return string((const char*)std::addressof(v), sizeof(T)); }
template <> string fromBytes<string>(const string& s) { return s; }
template <> string toBytes<string>(const string& s) { return s; }
template <class T> vector<T> vecOf(const FVal& v) { vector<T> o; for (auto& e : v.elems) o.push_back(fromBytes<T>(e)); return o; }
template <class T> map<string, T> mapOf(const FVal& v) { map<string, T> o; for (size_t i = 0; i < v.keys.size(); i++) o[v.keys[i]] = fromBytes<T>(v.elems[i]); return o; }
template <class T> void put(FVal& v, const vector<T>& x) { v = {}; for (auto& e : x) v.elems.push_back(toBytes<T>(e)); }
template <class T> void put(FVal& v, const map<string, T>& x) { v = {}; for (auto& e : x) { v.keys.push_back(e.first); v.elems.push_back(toBytes<T>(e.second)); } }
template <class T> void put1(FVal& v, const T& x) { v = {}; v.elems.push_back(toBytes<T>(x)); }

// what is common to plain types and strings
template <class T> struct VarOps : ElemOps {
  unique_ptr<DataPiece> make(const FieldSpec& f) const override {
    if (f.kind == kVector) return f.hasDef ? std::make_unique<DataPieceVector<T>>(f.label, vecOf<T>(f.def)) : std::make_unique<DataPieceVector<T>>(f.label);
    return f.hasDef ? std::make_unique<DataPieceStringMap<T>>(f.label, mapOf<T>(f.def)) : std::make_unique<DataPieceStringMap<T>>(f.label);
  }
  DataPiece* find(DataLayout& l, const FieldSpec& f) const override {
    if (f.kind == kVector) return l.findDataPieceVector<T>(f.label);
    return l.findDataPieceStringMap<T>(f.label);
  }
  bool set(DataPiece* p, const FieldSpec& f, const FVal& v) const override {
    if (f.kind == kVector) {
      auto* q = static_cast<DataPieceVector<T>*>(p);
      auto x = vecOf<T>(v);
      if (x.size() % 3 == 0) q->stage(x);
      else if (x.size() % 3 == 1) q->stage(x.data(), x.size());
      else q->stage(std::move(x));
    } else static_cast<DataPieceStringMap<T>*>(p)->stage(mapOf<T>(v));
    return true;
  }
  bool get(const DataPiece* p, const FieldSpec& f, FVal& v, int) const override {
    bool ok;
    if (f.kind == kVector) { vector<T> x(3); ok = static_cast<const DataPieceVector<T>*>(p)->get(x); put(v, x); }
    else { map<string, T> x; x["left over"] = T{}; ok = static_cast<const DataPieceStringMap<T>*>(p)->get(x); put(v, x); }
    return ok;
  }
  bool patch(const DataPiece* p, const FieldSpec& f, const FVal& v) const override {
    if (f.kind == kVector) return static_cast<const DataPieceVector<T>*>(p)->patchValue(vecOf<T>(v));
    return static_cast<const DataPieceStringMap<T>*>(p)->patchValue(mapOf<T>(v));
  }
  bool getDefault(const DataPiece* p, const FieldSpec& f, FVal& v) const override {
    if (f.kind == kVector) put(v, static_cast<const DataPieceVector<T>*>(p)->getDefault());
    else put(v, static_cast<const DataPieceStringMap<T>*>(p)->getDefault());
    return true;
  }
};
struct StringOps : VarOps<string> {
  StringOps() { name = "string"; size = 0; }
  string rnd(Rng& r, bool json) const override {
    size_t n = r.chance(0.25) ? 0 : r.below(r.chance(0.1) ? 300 : 20);
    string s;
    for (size_t i = 0; i < n; i++) s += json ? (char)(32 + r.below(95)) : r.chance(0.3) ? (char)r.below(256) : (char)('a' + r.below(26));
    return s;
  }
  unique_ptr<DataPiece> make(const FieldSpec& f) const override {
    if (f.kind == kString) return f.hasDef ? std::make_unique<DataPieceString>(f.label, f.def.elems[0]) : std::make_unique<DataPieceString>(f.label);
    return VarOps<string>::make(f);
  }
  DataPiece* find(DataLayout& l, const FieldSpec& f) const override { return f.kind == kString ? l.findDataPieceString(f.label) : VarOps<string>::find(l, f); }
  bool set(DataPiece* p, const FieldSpec& f, const FVal& v) const override {
    if (f.kind != kString) return VarOps<string>::set(p, f, v);
    static_cast<DataPieceString*>(p)->stage(v.elems[0]);
    return true;
  }
  bool get(const DataPiece* p, const FieldSpec& f, FVal& v, int how) const override {
    if (f.kind != kString) return VarOps<string>::get(p, f, v, how);
    auto* q = static_cast<const DataPieceString*>(p);
    string s = "left over";
    bool ok = q->get(s);
    if (how == 1) s = q->get();
    put1(v, s);
    return ok;
  }
  bool patch(const DataPiece* p, const FieldSpec& f, const FVal& v) const override {
    if (f.kind != kString) return VarOps<string>::patch(p, f, v);
    return static_cast<const DataPieceString*>(p)->patchValue(v.elems[0]);
  }
  bool getDefault(const DataPiece* p, const FieldSpec& f, FVal& v) const override {
    if (f.kind != kString) return VarOps<string>::getDefault(p, f, v);
    put1(v, static_cast<const DataPieceString*>(p)->getDefault());
    return true;
  }
};
template <class T> struct Scalar { using type = T; };
template <class T, size_t N> struct Scalar<PointND<T, N>> { using type = T; };
template <class T, size_t N> struct Scalar<MatrixND<T, N>> { using type = T; };
template <class T> struct PodOps : VarOps<T> {
  PodOps() { this->name = vrs::getTypeName<T>(); this->size = sizeof(T); }
  string rnd(Rng& r, bool json) const override {
    using S = typename Scalar<T>::type;
    string s(sizeof(T), 0);
    for (size_t o = 0; o < sizeof(T); o += sizeof(S)) {
      if constexpr (std::is_same_v<T, Bool>) s[o] = (char)r.below(2);
      else if constexpr (std::is_floating_point_v<S>) {
        S v;
        if (json || r.chance(0.5)) v = (S)((double)r.range(-4000, 4000) / 4);
        else { uint64_t u = r.next(); memcpy(&v, &u, sizeof v); } // NaN and others
        memcpy(&s[o], &v, sizeof v);
      } else {
        uint64_t u = r.chance(0.3) ? r.below(3) - 1 : r.next();
        memcpy(&s[o], &u, sizeof(S));
      }
    }
    return s;
  }
  unique_ptr<DataPiece> make(const FieldSpec& f) const override {
    if (f.kind == kValue) return f.hasDef ? std::make_unique<DataPieceValue<T>>(f.label, fromBytes<T>(f.def.elems[0])) : std::make_unique<DataPieceValue<T>>(f.label);
    if (f.kind == kArray) {
      auto p = std::make_unique<DataPieceArray<T>>(f.label, f.count);
      if (f.hasDef) p->setDefault(vecOf<T>(f.def));
      return p;
    }
    return VarOps<T>::make(f);
  }
  DataPiece* find(DataLayout& l, const FieldSpec& f) const override {
    if (f.kind == kValue) return l.findDataPieceValue<T>(f.label);
    if (f.kind == kArray) return l.findDataPieceArray<T>(f.label, f.count);
    return VarOps<T>::find(l, f);
  }
  bool set(DataPiece* p, const FieldSpec& f, const FVal& v) const override {
    if (f.kind == kValue) return static_cast<DataPieceValue<T>*>(p)->set(fromBytes<T>(v.elems[0]));
    if (f.kind == kArray) {
      auto* q = static_cast<DataPieceArray<T>*>(p);
      auto x = vecOf<T>(v);
      if (x.size() % 2) return q->set(x);
      bool ok = true;
      for (size_t i = 0; i < x.size(); i++) ok = q->set(x[i], i) && ok;
      return ok;
    }
    return VarOps<T>::set(p, f, v);
  }
  bool get(const DataPiece* p, const FieldSpec& f, FVal& v, int how) const override {
    if (f.kind == kValue) {
      auto* q = static_cast<const DataPieceValue<T>*>(p);
      T x{};
      bool ok = q->get(x);
      if (how == 1) x = q->get();
      put1(v, x);
      return ok;
    }
    if (f.kind == kArray) {
      auto* q = static_cast<const DataPieceArray<T>*>(p);
      if (how == 0) { vector<T> x(2); bool ok = q->get(x); put(v, x); return ok; }
      vector<T> x(f.count);
      bool ok = true;
      if (how == 1) ok = q->get(x.data(), x.size());
      else for (size_t i = 0; i < x.size(); i++) ok = q->get(x[i], i) && ok;
      put(v, x);
      return ok;
    }
    return VarOps<T>::get(p, f, v, how);
  }
  bool patch(const DataPiece* p, const FieldSpec& f, const FVal& v) const override {
    if (f.kind == kValue) return static_cast<const DataPieceValue<T>*>(p)->patchValue(fromBytes<T>(v.elems[0]));
    if (f.kind == kArray) { auto x = vecOf<T>(v); return static_cast<const DataPieceArray<T>*>(p)->patchValue(x.data(), x.size()); }
    return VarOps<T>::patch(p, f, v);
  }
  bool getDefault(const DataPiece* p, const FieldSpec& f, FVal& v) const override {
    if (f.kind == kValue) { put1(v, static_cast<const DataPieceValue<T>*>(p)->getDefault()); return true; }
    if (f.kind == kArray) { put(v, static_cast<const DataPieceArray<T>*>(p)->getDefault()); return true; }
    return VarOps<T>::getDefault(p, f, v);
  }
  bool setRange(DataPiece* p, const FieldSpec& f, const string& mn, const string& mx) const override {
    if (f.kind == kValue) static_cast<DataPieceValue<T>*>(p)->setRange(fromBytes<T>(mn), fromBytes<T>(mx));
    else if (f.kind == kArray) static_cast<DataPieceArray<T>*>(p)->setRange(fromBytes<T>(mn), fromBytes<T>(mx));
    else return false;
    return true;
  }
  bool getRange(const DataPiece* p, const FieldSpec& f, string& mn, string& mx) const override {
    T a{}, b{};
    bool ok = false;
    if (f.kind == kValue) ok = static_cast<const DataPieceValue<T>*>(p)->getMin(a) && static_cast<const DataPieceValue<T>*>(p)->getMax(b);
    else if (f.kind == kArray) ok = static_cast<const DataPieceArray<T>*>(p)->getMin(a) && static_cast<const DataPieceArray<T>*>(p)->getMax(b);
    mn = toBytes<T>(a);
    mx = toBytes<T>(b);
    return ok;
  }
};
const StringOps& stringOps() { static StringOps s; return s; }
} // namespace

const vector<const ElemOps*>& elemTypes() {
  static vector<const ElemOps*> all = [] {
    vector<const ElemOps*> v;
#define POD_MACRO(T) { using namespace vrs; v.push_back(new PodOps<T>); }
#include <vrs/helpers/PODMacro.inc>
    return v;
  }();
  return all;
}
const ElemOps* elemType(const string& name) {
  if (name == "string") return &stringOps();
  for (auto* e : elemTypes()) if (e->name == name) return e;
  sim::harnessError("no type %s", name.c_str());
}
FVal rndValue(Rng& r, const FieldSpec& f, bool json) {
  FVal v;
  size_t n = 1;
  if (f.kind == kArray) n = f.count;
  else if (f.kind == kVector) n = r.chance(0.25) ? 0 : r.below(r.chance(0.1) ? 40 : 6);
  else if (f.kind == kMap) {
    set<string> keys;
    for (size_t k = 0, m = r.chance(0.25) ? 0 : r.below(6); k < m; k++) keys.insert(stringOps().rnd(r, json));
    v.keys.assign(keys.begin(), keys.end());
    n = keys.size();
  }
  for (size_t i = 0; i < n; i++) v.elems.push_back(f.elem->rnd(r, json));
  return v;
}
FVal missingValue(const FieldSpec& f) {
  if (f.hasDef) return f.def;
  FVal v;
  if (f.kind == kValue) v.elems.push_back(string(f.elem->size, 0));
  if (f.kind == kString) v.elems.push_back("");
  return v; // arrays depend on the way they are read
}
FieldSpec field(Kind k, const char* elem, const string& label) {
  FieldSpec f;
  f.kind = k;
  f.elem = elemType(elem);
  f.label = label;
  return f;
}
FieldSpec rndField(Rng& r, const string& label) {
  FieldSpec f;
  f.label = label;
  f.kind = (Kind)r.below(kKinds);
  f.elem = f.kind == kString || (f.kind >= kVector && r.chance(0.4)) ? elemType("string") : r.pick(elemTypes());
  if (f.kind == kArray) f.count = 1 + r.below(5);
  f.hasDef = r.chance(0.4);
  if (f.hasDef) f.def = rndValue(r, f, true);
  f.required = r.chance(0.2);
  if (r.chance(0.2)) f.tags["unit"] = "m/s";
  if (r.chance(0.2)) f.tags["description"] = "a \"field\"\n" + label;
  return f;
}
LayoutSpec rndLayout(Rng& r, size_t maxFields) {
  LayoutSpec s;
  size_t n = r.chance(0.07) ? 0 : 1 + r.below(maxFields);
  for (size_t i = 0; i < n; i++) {
    // the same label may be used for fields of other types
    FieldSpec f = rndField(r, string(r.chance(0.1) ? "shared/" : "f/") + "field " + std::to_string(r.below(n * 2)));
    bool dup = false;
    for (auto& o : s) dup |= o.matches(f);
    if (!dup) s.push_back(f);
  }
  return s;
}
LayoutSpec otherVersion(Rng& r, const LayoutSpec& s) {
  LayoutSpec o;
  auto add = [&](const FieldSpec& f) {
    for (auto& x : o) if (x.matches(f)) return;
    o.push_back(f);
  };
  for (auto& f : s) {
    if (r.chance(0.2)) continue;
    FieldSpec g = f;
    if (r.chance(0.15)) {
      g = rndField(r, f.label); // same name, probably another type
    } else if (r.chance(0.1) && g.kind == kArray) {
      g.count++;
      g.hasDef = false;
    } else {
      g.hasDef = r.chance(0.5);
      g.def = g.hasDef ? rndValue(r, g, true) : FVal{};
    }
    g.required = r.chance(0.2);
    add(g);
  }
  for (size_t k = 0, n = r.below(3); k < n; k++) add(rndField(r, "new field " + std::to_string(k)));
  if (r.chance(0.5))
    for (size_t i = o.size(); i > 1; i--) std::swap(o[i - 1], o[r.below(i)]);
  return o;
}
BuiltLayout build(const LayoutSpec& s) {
  BuiltLayout b;
  b.dl = std::make_unique<ManualDataLayout>();
  for (auto& f : s) {
    auto p = f.elem->make(f);
    if (f.required) p->setRequired();
    for (auto& t : f.tags) p->setTag(t.first, t.second);
    b.pieces.push_back(b.dl->add(std::move(p)));
  }
  b.dl->endLayout();
  return b;
}
void setValues(BuiltLayout& b, const LayoutSpec& s, const vector<FVal>& v) {
  for (size_t i = 0; i < s.size(); i++)
    if (!s[i].elem->set(b.pieces[i], s[i], v[i])) fail("cannot set a field: %s", s[i].str().c_str());
}
vector<FVal> rndValues(Rng& r, const LayoutSpec& s) {
  vector<FVal> v;
  for (auto& f : s) v.push_back(rndValue(r, f));
  return v;
}
string rawBytes(DataLayout& l) {
  l.collectVariableDataAndUpdateIndex();
  vector<int8_t> raw;
  l.getRawData(raw);
  return string((const char*)raw.data(), raw.size());
}
void checkValues(DataLayout& l, const LayoutSpec& s, const vector<FVal>& v, int how, const char* where) {
  for (size_t i = 0; i < s.size(); i++) {
    DataPiece* p = s[i].elem->find(l, s[i]);
    if (!p) fail("field not found %s: %s", where, s[i].str().c_str());
    FVal got;
    if (!s[i].elem->get(p, s[i], got, how)) fail("field has no value %s: %s", where, s[i].str().c_str());
    if (got != v[i]) fail("field has another value %s: %s is %s instead of %s", where, s[i].str().c_str(), got.str().c_str(), v[i].str().c_str());
  }
  if (l.getDeclaredFixedDataPiecesCount() + l.getDeclaredVarDataPiecesCount() != s.size()) fail("layout has other fields %s: %zu+%zu instead of %zu", where, l.getDeclaredFixedDataPiecesCount(), l.getDeclaredVarDataPiecesCount(), s.size());
}
void checkMapped(BuiltLayout& other, const LayoutSpec& os, DataLayout& l, const LayoutSpec& s, const vector<FVal>& v, int how, const char* where) {
  bool all = true;
  bool st = other.dl->mapLayout(l);
  for (size_t i = 0; i < os.size(); i++) {
    const FVal* want = nullptr;
    for (size_t k = 0; k < s.size(); k++)
      if (s[k].matches(os[i])) want = &v[k];
    FVal got;
    bool ok = os[i].elem->get(other.pieces[i], os[i], got, how);
    if (want) {
      if (!ok) fail("known field has no value %s: %s", where, os[i].str().c_str());
      if (got != *want) fail("known field has another value %s: %s is %s instead of %s", where, os[i].str().c_str(), got.str().c_str(), want->str().c_str());
      if (!other.pieces[i]->isMapped()) fail("known field is not mapped %s: %s", where, os[i].str().c_str());
    } else {
      all = all && !os[i].required;
      if (ok) fail("unknown field has a value %s: %s is %s", where, os[i].str().c_str(), got.str().c_str());
      if (other.pieces[i]->isAvailable() || other.pieces[i]->isMapped()) fail("unknown field is said to be available %s: %s", where, os[i].str().c_str());
      FVal def = missingValue(os[i]);
      if (os[i].kind == kArray) {
        if (how != 0) def.elems.resize(os[i].count, string(os[i].elem->size, 0));
      }
      if (got != def) fail("unknown field does not have its default value %s: %s is %s instead of %s", where, os[i].str().c_str(), got.str().c_str(), def.str().c_str());
    }
  }
  if (st != all || other.dl->hasAllRequiredPieces() != all) fail("required fields: mapping says %s, %s %s", st ? "all there" : "missing", all ? "all there" : "missing", where);
}
} // namespace w

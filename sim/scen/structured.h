// Structured records: layouts described by data, so that they can be made, changed and checked at random.
#pragma once
#include "common.h"

#include <vrs/DataLayout.h>
#include <vrs/DataPieces.h>

namespace w {
// a value of any data piece, as bytes
struct FVal {
  vector<string> keys;  // string maps only, sorted
  vector<string> elems; // raw bytes of each element
  bool operator==(const FVal& o) const { return keys == o.keys && elems == o.elems; }
  bool operator!=(const FVal& o) const { return !(*this == o); }
  string str() const;
};
enum Kind { kValue, kArray, kVector, kString, kMap, kKinds };
extern const char* const kKindNames[kKinds];
struct ElemOps; // what can be done with pieces of an element type
const vector<const ElemOps*>& elemTypes();     // the plain types
const ElemOps* elemType(const string& name);   // "string" included
struct FieldSpec {
  Kind kind = kValue;
  const ElemOps* elem = nullptr;
  string label;
  size_t count = 1; // arrays
  bool hasDef = false;
  FVal def;
  bool required = false;
  map<string, string> tags;
  bool isVar() const { return kind >= kVector; }
  bool matches(const FieldSpec& o) const;
  string str() const;
};
struct ElemOps {
  virtual ~ElemOps() = default;
  string name;
  size_t size = 0; // 0: string
  virtual string rnd(Rng& r, bool json) const = 0;
  virtual unique_ptr<vrs::DataPiece> make(const FieldSpec& f) const = 0;
  virtual vrs::DataPiece* find(vrs::DataLayout& l, const FieldSpec& f) const = 0;
  virtual bool set(vrs::DataPiece* p, const FieldSpec& f, const FVal& v) const = 0; // sets or stages
  virtual bool get(const vrs::DataPiece* p, const FieldSpec& f, FVal& v, int how) const = 0;
  virtual bool patch(const vrs::DataPiece* p, const FieldSpec& f, const FVal& v) const = 0;
  virtual bool setRange(vrs::DataPiece*, const FieldSpec&, const string&, const string&) const { return false; }
  virtual bool getRange(const vrs::DataPiece*, const FieldSpec&, string&, string&) const { return false; }
  virtual bool getDefault(const vrs::DataPiece* p, const FieldSpec& f, FVal& v) const = 0;
};
using LayoutSpec = vector<FieldSpec>;

FVal rndValue(Rng& r, const FieldSpec& f, bool json = false);
FVal missingValue(const FieldSpec& f);  // what reading an absent field gives
FieldSpec rndField(Rng& r, const string& label);
LayoutSpec rndLayout(Rng& r, size_t maxFields);
FieldSpec field(Kind k, const char* elem, const string& label);
template <class T> FVal fval(T v) { FVal f; f.elems.emplace_back((const char*)&v, sizeof v); return f; }
inline FVal fstr(const string& s) { FVal f; f.elems.push_back(s); return f; }
// a different version of a layout: fields removed, added, moved, of another type
LayoutSpec otherVersion(Rng& r, const LayoutSpec& s);

struct BuiltLayout {
  unique_ptr<vrs::ManualDataLayout> dl;
  vector<vrs::DataPiece*> pieces; // in the order of the spec
};
BuiltLayout build(const LayoutSpec& s);
void setValues(BuiltLayout& b, const LayoutSpec& s, const vector<FVal>& v);
vector<FVal> rndValues(Rng& r, const LayoutSpec& s);
string rawBytes(vrs::DataLayout& l); // collects
// every field of the layout has the value expected
void checkValues(vrs::DataLayout& l, const LayoutSpec& s, const vector<FVal>& v, int how, const char* where);
// read through another layout: fields known to both have the value, others their default
void checkMapped(BuiltLayout& other, const LayoutSpec& otherSpec, vrs::DataLayout& l, const LayoutSpec& s, const vector<FVal>& v, int how, const char* where);
} // namespace w

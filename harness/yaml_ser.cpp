// Y06-Y09: structs, enums, containers and type-discriminated objects read from and written to YAML.
#include "fsx.h"
#include <string>
#include <vector>
#include <list>
#include <map>
#include <set>
#include <array>
#include <memory>
#include <optional>
#include <algorithm>
#include <functional>
#include <unordered_map>
#include <stdexcept>
#include <iostream>
#include <sstream>
#include <fstream>
#include <cstdio>
#include <cstdarg>
#include <cstring>
#include "yaml-serializable.h"
#include "legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp"
using Yaml::Node; using Yaml::ConfigurationException; typedef ConfigurationException CE;
SERIALIZABLE_ENUM(Col, R, Re, Red, GREEN_1, b)
static const char* NM[] = {"R", "Re", "Red", "GREEN_1", "b"};
static std::string txt(const char* nm, size_t n) { std::string s(n, ' '); for (auto& c : s) { c = (char)fsx_byte_in(nm, 32, 126); fsx_assume(c != '"'); fsx_assume(c != '\\'); } return s; }
static std::string dec(long v) { bool neg = v < 0; unsigned long u = neg ? 0ul - (unsigned long)v : (unsigned long)v; std::string s; do { s.insert(s.begin(), (char)('0' + u % 10)); u /= 10; } while (u); if (neg) s.insert(s.begin(), '-'); return s; }
static int num(const char* nm) { long r = fsx_param("range", 99); unsigned m = (uint8_t)fsx_int(nm, 16, 0, r); return fsx_choose(2, "neg") ? -(int)m : (int)m; }
static int num1(const char* nm) { return (int)(uint8_t)fsx_int(nm, 16, 10, 99); }   // one path
// ================================================================ Y06 enums
FSX_ENTRY h_enum_text() {
  size_t n = fsx_choose(fsx_param("n", 4) + 1, "len"); std::string s = fsx_string_any("c", n);
  if (fsx_bool("longname")) { s = "GREEN_1"; s[fsx_choose(7, "at")] = (char)fsx_byte("r"); }
  int want = -1; for (int i = 0; i < 5; i++) { if (s == NM[i]) want = i; }
  Col start = (Col)fsx_choose(5, "start"), v = start; Node x; x = s; bool thr = false;
  try { Yaml::deserialize(v, x); } catch (CE&) { thr = true; }
  fsx_check(thr == (want < 0), "exactly the names of the enumerators are accepted"); fsx_check(v == (want < 0 ? start : (Col)want), "a name is read as its enumerator and a rejected text changes nothing");
  fsx_cover(want < 0 ? "rejected" : "accepted");
  Col w = start; thr = false; try { from_string(s, w); } catch (CE&) { thr = true; } fsx_check(thr == (want < 0) && w == v, "from_string agrees with deserialize");
  Node none; Col u = start; Yaml::deserialize(u, none); fsx_check(u == start, "an absent value leaves the enumerator"); fsx_obs("v", (int)v);
}
FSX_ENTRY h_enum_value() {
  int k = (int)fsx_int("value", 32, -2147483647L - 1, 2147483647L); Col v = (Col)k; std::string s = to_string(v); bool in = k >= 0 && k < 5; fsx_cover(in ? "valid" : "invalid");
  if (in) { fsx_check(s == NM[k], "an enumerator is written as its name"); Col w = (Col)((k + 1) % 5); from_string(s, w); fsx_check(w == v, "reading the written name gives the enumerator back"); Node x; Yaml::serialize(v, x); fsx_check(x.As<std::string>() == s, "serialize writes the name"); w = (Col)0; Yaml::deserialize(w, x); fsx_check(w == v, "deserialize inverts serialize");
    std::stringstream ss; ss << v; w = (Col)((k + 2) % 5); ss >> w; fsx_check(w == v, "stream output and input are inverse"); }
  else { fsx_check(s.empty(), "a value that is no enumerator has no name"); Node x; x["keep"] = "1"; Yaml::serialize(v, x); fsx_check(x.IsMap(), "a value that is no enumerator is not written"); }
  fsx_obs_s("s", s);
}
// ================================================================ Y07 structs
static int nderive, nvalidate, order;
struct In { int a = 1; std::string t = "dflt"; };
IMPL_YAML_SERIALIZABLE_FOR(In, a, t)
struct Out : Yaml::DerivedFields, Yaml::ValidatedYaml { int x = -7; std::optional<int> o; In in; std::vector<In> list; Col c = Col::Red; int dx = 0; bool bad = false;
  void derive() { nderive++; order = order * 10 + 1; dx = 2 * x; } void validate() { nvalidate++; order = order * 10 + 2; if (x == 13) throw CE("unlucky"); } };
YAML_ADD_REQUIRED_FIELDS_FOR(Out, x, c)
IMPL_YAML_SERIALIZABLE_FOR(Out, x, o, in, list, c)
struct Two { int x = 5; int y = 6; }; IMPL_YAML_SERIALIZABLE_FOR(Two, x, y)
static std::string what(const CE& e) { return e._field_name; }
// every combination of present / absent fields, valid and invalid values; non-strict and strict loading
FSX_ENTRY h_struct() {
  nderive = nvalidate = order = 0; Node n; int xv = num("x"); bool hx = fsx_bool("has_x"), hc = fsx_bool("has_c"), ho = fsx_bool("has_o"); unsigned hin = fsx_choose(4, "in"), hl = fsx_choose(4, "list"), extra = fsx_choose(8, "extra"); bool strict = fsx_bool("strict");
  int ov = num1("o"), iv = num1("a"); std::string xs = dec(xv); n["pad"]; if (hx) n["x"] = xs; if (hc) n["c"] = fsx_bool("badc") ? "NOPE" : "GREEN_1"; bool badc = hc && n["c"].As<std::string>() == "NOPE";
  if (ho) n["o"] = dec(ov); if (hin & 1) n["in"]["a"] = dec(iv); if (hin & 2) n["in"]["t"] = "tt";
  for (unsigned i = 0; i < hl; i++) n["list"].PushBack()["a"] = dec((int)i + 40);
  if (extra == 1) n["X"] = "1"; if (extra == 2) { if (!hin) extra = 0; else n["in"]["b"] = "1"; } if (extra == 3) { if (hl < 2) extra = 0; else n["list"][1]["z"]["q"] = "1"; } if (extra == 4) { n["w"].PushBack() = "1"; }
  if (extra == 5) { if (!hx) extra = 0; else n["x"]["k"] = "1"; } if (extra == 6) { if (!hin) extra = 0; else { n["in"].Clear(); n["in"].PushBack() = "1"; } } if (extra == 7) { if (!hx) extra = 0; else { n["x"].Clear(); n["x"].PushBack() = "3"; } }
  Node before(n); Out v; v.in.a = 99; bool thr = false; std::string path, msg;
  try { if (strict) Yaml::from_strict(n, v); else Yaml::from(n, v); } catch (CE& e) { thr = true; path = what(e); msg = e.msg; }
  int x = !hx ? -7 : (extra == 5 || extra == 7) ? 0 : xv;
  if (!hx || !hc) { fsx_check(thr, "a missing required field is rejected"); fsx_check(msg.find(!hx ? "`x`" : "`c`") != std::string::npos, "the message names the missing field"); fsx_check(v.in.a == 99 && v.x == -7 && nderive == 0, "nothing is loaded when a required field is missing"); fsx_cover("required"); }
  else if (badc) { fsx_check(thr && path == "c", "an invalid value is rejected with the field name"); fsx_check(nderive == 0, "no fields are derived from rejected input"); }
  else if (strict && extra) {
    fsx_check(thr, "strict loading rejects fields the object does not have"); static const char* w[] = {"", "", "in", "list.<1>", "", "x", "in", "x"}; fsx_check(path == w[extra], "the error names the position of the unexpected field"); fsx_check(nderive == 0, "strict loading derives nothing from rejected input"); fsx_cover("strict"); }
  else if (x == 13) { fsx_check(thr, "the validation of the object is honoured"); fsx_check(order == 12, "validation follows derivation"); fsx_cover("validate"); }
  else {
    fsx_check(!thr, "a document with all required fields is accepted"); fsx_check(v.x == x, "present field is loaded"); fsx_check(v.o.has_value() == ho && (!ho || *v.o == ov), "optional fields are set exactly when present"); fsx_check(v.c == Col::GREEN_1, "enum field");
    if (extra != 6) { fsx_check(v.in.a == ((hin & 1) ? iv : 99) && v.in.t == ((hin & 2) ? "tt" : "dflt"), "absent fields keep their value"); }
    fsx_check(v.list.size() == hl, "every list entry is loaded"); for (unsigned i = 0; i < hl && i < v.list.size(); i++) fsx_check(v.list[i].a == (int)i + 40 && v.list[i].t == "dflt", "list entries in order");
    fsx_check(order == 12 && nderive == 1 && nvalidate == 1, "derive then validate, once each"); fsx_check(v.dx == 2 * x, "derived fields come from the loaded ones"); fsx_cover("loaded"); }
  fsx_obs("thr", thr); fsx_obs("x", v.x);
}
// text -> object -> text -> object
FSX_ENTRY h_struct_text() {
  Out v; v.x = num("x"); fsx_assume(v.x != 13); v.c = (Col)fsx_choose(5, "c"); if (fsx_bool("ho")) v.o = num1("o"); v.in.a = num1("a"); v.in.t = txt("t", fsx_choose(fsx_param("n", 2) + 1, "len")); unsigned k = fsx_choose(3, "list"); for (unsigned i = 0; i < k; i++) { In e; e.a = (int)i; e.t = i ? "- q" : ""; v.list.push_back(e); }
  std::string s = Yaml::to_string(v); Out w; bool thr = false; try { if (fsx_bool("strict")) Yaml::from_string_strict(s, w); else w = Yaml::from_string<Out>(s); } catch (std::exception& e) { thr = true; } fsx_check(!thr, "the text of an object is accepted when read back");
  fsx_check(w.x == v.x && w.c == v.c && w.o == v.o && w.in.a == v.in.a && w.in.t == v.in.t, "an object survives writing and reading"); fsx_check(w.list.size() == k, "list fields survive"); for (unsigned i = 0; i < k && i < w.list.size(); i++) fsx_check(w.list[i].a == v.list[i].a && w.list[i].t == v.list[i].t, "list entries survive");
  fsx_check(w.dx == 2 * w.x, "derived fields are recomputed"); fsx_check(Yaml::to_string(w) == s, "writing is stable"); fsx_cover("text"); fsx_obs_s("s", s);
}
// several objects from one document
FSX_ENTRY h_multi() {
  Node n; static const char* ks[] = {"a", "t", "x", "y", "zz"}; unsigned m = fsx_choose(32, "keys"); bool strict = fsx_bool("strict"); int q = num1("v"); for (int i = 0; i < 5; i++) if (m >> i & 1) n[ks[i]] = dec(q + i);
  In a; Two b; bool thr = false; try { if (strict) Yaml::from_strict(n, a, b); else Yaml::from(n, a, b); } catch (CE&) { thr = true; }
  fsx_check(thr == (strict && (m & 16)), "strict loading rejects exactly the keys no object has"); fsx_cover(thr ? "rejected" : "accepted");
  fsx_check(a.a == ((m & 1) ? q : 1) && a.t == ((m & 2) ? dec(q + 1) : "dflt") && b.x == ((m & 4) ? q + 2 : 5) && b.y == ((m & 8) ? q + 3 : 6), "each object takes its own fields"); fsx_obs("thr", thr);
  std::string s = Yaml::to_string(a, b); In a2; Two b2; Yaml::from_string_strict(s, a2, b2); fsx_check(a2.a == a.a && a2.t == a.t && b2.x == b.x && b2.y == b.y, "several objects share one document");
}
// base classes: derive/validate are run once per class that defines them
struct Base0 : Yaml::DerivedFields { int a = 1; int n = 0; void derive() { n++; } }; IMPL_YAML_SERIALIZABLE_FOR(Base0, a)
struct Der1 : Base0 { int b = 2; }; IMPL_YAML_SERIALIZABLE_WITH_BASE(Der1, Base0, b)
struct Der2 : Base0 { int b = 2; int m = 0; void derive() { m++; } void validate() { if (b < 0) throw CE("negative"); } };
YAML_ADD_REQUIRED_FIELDS_FOR(Der2, b)
IMPL_YAML_SERIALIZABLE_WITH_BASE(Der2, Base0, b)
FSX_ENTRY h_base() {
  Node n; int av = num("a"), bv = num("b"); bool ha = fsx_bool("ha"), hb = fsx_bool("hb"); if (ha) n["a"] = dec(av); if (hb) n["b"] = dec(bv); bool strict = fsx_bool("strict"); if (fsx_bool("extra")) { n["c"] = "1"; }
  bool ex = !n["c"].IsNone(); { Node k(n); Der1 d; bool thr = false; try { if (strict) Yaml::from_strict(k, d); else Yaml::from(k, d); } catch (CE&) { thr = true; } fsx_check(thr == (strict && ex), "strict loading of a derived class knows the base fields"); if (!thr) { fsx_check(d.a == (ha ? av : 1) && d.b == (hb ? bv : 2), "base and derived fields are loaded"); fsx_check(d.n == 1, "an inherited derive runs once"); fsx_cover("inherit"); } }
  { Node k(n); Der2 d; d.a = 55; bool thr = false; try { if (strict) Yaml::from_strict(k, d); else Yaml::from(k, d); } catch (CE&) { thr = true; } bool bad = !hb || (strict && ex) || bv < 0; fsx_check(thr == bad, "required fields and validation of a derived class"); if (!hb && !(strict && ex)) fsx_check(d.a == 55 && d.n == 0 && d.m == 0, "nothing of a derived object is loaded when its required field is missing"); if (!thr) { fsx_check(d.n == 1 && d.m == 1, "base derive and own derive each run once"); fsx_cover("own"); } fsx_obs("thr", thr); }
}
// ================================================================ Y08 containers
template <class T, class EQ> static void rt_(const T& v, EQ eq, const char* what_) {
  Node n; Yaml::serialize(v, n); T w{}; Yaml::deserialize(w, n); fsx_check(eq(v, w), "a container survives serialize and deserialize");
  std::string s = Yaml::to_string(v); T u{}; bool thr = false; try { Yaml::from_string(s, u); } catch (std::exception&) { thr = true; } fsx_check(!thr, "the text of a container is accepted when read back"); fsx_check(eq(v, u), "a container survives writing and reading text"); 
  T z{}; thr = false; try { Yaml::from_string_strict(s, z); } catch (std::exception&) { thr = true; } fsx_check(!thr && eq(v, z), "strict reading accepts what was written"); fsx_cover(what_); fsx_obs_s("s", s);
}
FSX_ENTRY h_cont() {
  auto eq = [](const auto& a, const auto& b) { return a == b; }; unsigned k = fsx_choose(fsx_param("len", 3) + 1, "len");
  switch (fsx_choose(12, "kind")) {
    case 0: { std::vector<int> v; for (unsigned i = 0; i < k; i++) v.push_back(num("e")); rt_(v, eq, "vector"); break; }
    case 1: { std::set<int> v; for (unsigned i = 0; i < k; i++) v.insert(num("e")); rt_(v, eq, "set"); break; }
    case 2: { std::array<int, 3> v; for (auto& x : v) x = num1("e"); v[1] = num("e1"); rt_(v, eq, "array"); break; }
    case 3: { std::vector<std::string> v; for (unsigned i = 0; i < k && i < 2; i++) v.push_back(txt("t", fsx_choose(2, "tlen"))); rt_(v, eq, "texts"); break; }
    case 4: { std::vector<std::vector<int>> v; for (unsigned i = 0; i < k; i++) { v.emplace_back(); unsigned m = fsx_choose(3, "m"); for (unsigned j = 0; j < m; j++) v.back().push_back((int)(i * 10 + j)); } rt_(v, eq, "nested"); break; }
    case 5: { std::vector<bool> v; for (unsigned i = 0; i < k; i++) v.push_back(fsx_choose(2, "b")); rt_(v, eq, "bools"); break; }
    case 6: { std::vector<Col> v; for (unsigned i = 0; i < k; i++) v.push_back((Col)fsx_choose(5, "e")); rt_(v, eq, "enums"); break; }
    case 7: { std::optional<int> v; if (k) v = num("e"); rt_(v, eq, "optional"); break; }
    case 8: { std::vector<std::shared_ptr<int>> v; for (unsigned i = 0; i < k; i++) v.push_back(std::make_shared<int>(num("e"))); rt_(v, [](const auto& a, const auto& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!b[i] || *a[i] != *b[i]) return false; return true; }, "pointers"); break; }
    case 9: { bool v = fsx_bool("b"); rt_(v, eq, "bool"); break; }
    case 10: { std::array<std::array<int, 2>, 2> v; for (auto& r : v) for (auto& x : r) x = num1("e"); rt_(v, eq, "matrix"); break; }
    default: { std::vector<std::set<Col>> v(k ? 1 : 0); for (unsigned i = 0; i + 1 < k; i++) v[0].insert((Col)fsx_choose(5, "e")); rt_(v, eq, "set in vector"); break; }
  }
}
// bracket lists, fixed lengths, element errors
FSX_ENTRY h_bracket() {
  unsigned k = fsx_choose(fsx_param("len", 4) + 1, "len"); static const char* pad[] = {"", " ", "  "}; std::string s; int e[5]; s += "["; const char* p = pad[fsx_choose(3, "pad")]; const char* q = pad[fsx_choose(2, "pad2")]; s += p; for (unsigned i = 0; i < k; i++) { if (i) { s += q; s += ","; s += p; } e[i] = i == 1 ? num("e") : num1("e"); s += dec(e[i]); } s += q; s += "]";
  Node n; n = s; std::vector<int> v{1, 2, 3, 4, 5, 6}; Yaml::deserialize(v, n); fsx_check(v.size() == k, "a bracket list has as many entries as were written"); for (unsigned i = 0; i < k && i < v.size(); i++) fsx_check(v[i] == e[i], "bracket list entries in order");
  int a[3] = {-1000, -1000, -1000}; bool thr = false; try { Yaml::deserialize(a, n); } catch (CE&) { thr = true; } fsx_check(thr == (k != 3), "a fixed length array accepts exactly its length"); if (!thr) fsx_check(a[0] == e[0] && a[1] == e[1] && a[2] == e[2], "array entries in order"); else fsx_check(a[0] == -1000 && a[1] == -1000 && a[2] == -1000, "a list of the wrong length changes nothing");
  std::array<int, 3> b{{-1, -1, -1}}; thr = false; try { Yaml::deserialize(b, n); } catch (CE&) { thr = true; } fsx_check(thr == (k != 3), "std::array accepts exactly its length"); if (k <= 2) { std::set<int> st{500}; Yaml::deserialize(st, n); std::set<int> es; for (unsigned i = 0; i < k; i++) es.insert(e[i]); fsx_check(st == es, "a set holds the distinct entries"); } fsx_cover(k == 3 ? "fits" : k ? "other" : "empty"); fsx_obs("k", k);
}
FSX_ENTRY h_bracket_text() {   // which texts count as a list, and what their entries are
  size_t n = fsx_choose(fsx_param("n", 4) + 1, "len"); std::string s = fsx_string("c", n, "[], aR"); for (auto& c : s) c = (char)fsx_concretize((unsigned char)c); if (fsx_bool("wrap")) s = "[" + s + "]"; Node x; x = s; std::vector<std::string> v; bool thr = false; try { Yaml::deserialize(v, x); } catch (CE&) { thr = true; }
  bool list = s.size() >= 2 && s[0] == '[' && s[s.size() - 1] == ']'; for (size_t i = 1; i + 1 < s.size(); i++) if (s[i] == '[' || s[i] == ']') list = false;
  std::vector<std::string> w; if (list) { std::string in = s.substr(1, s.size() - 2), cur; bool blank = true; for (char c : in) if (c != ' ') blank = false; if (!blank) { auto trim = [](std::string t) { size_t a = 0, b = t.size(); while (a < b && t[a] == ' ') a++; while (b > a && t[b - 1] == ' ') b--; return t.substr(a, b - a); }; for (char c : in) if (c == ',') { w.push_back(trim(cur)); cur.clear(); } else cur += c; w.push_back(trim(cur)); } }
  fsx_check(thr == (!list && !s.empty()), "exactly bracketed text (or nothing) is read as a list"); if (!thr) { fsx_check(v == w, "the entries are the blank-trimmed pieces between commas"); fsx_cover("list"); } else fsx_cover("no list");
  std::vector<Col> c; bool thr2 = false; std::string path; try { Yaml::deserialize(c, x); } catch (CE& e) { thr2 = true; path = what(e); } size_t bad = 0; while (bad < w.size() && w[bad] == "R") bad++;
  fsx_check(thr2 == (thr || bad < w.size()), "an invalid entry rejects the list"); if (!thr && thr2) fsx_check(path == "<" + dec(bad) + ">", "the error names the entry"); fsx_obs("thr", thr);
}
struct Ptrs { std::shared_ptr<int> s; std::unique_ptr<int> u; std::optional<In> o; std::shared_ptr<In> p; }; IMPL_YAML_SERIALIZABLE_FOR(Ptrs, s, u, o, p)
FSX_ENTRY h_ptrs() {
  Ptrs v; unsigned m = fsx_choose(16, "present"); int q = num("v"); if (m & 1) v.s = std::make_shared<int>(q); if (m & 2) v.u = std::make_unique<int>(q + 1); if (m & 4) { v.o = In(); v.o->a = q; } if (m & 8) { v.p = std::make_shared<In>(); v.p->t = "pp"; }
  std::string s = Yaml::to_string(v); Ptrs w; bool thr = false; try { if (fsx_bool("strict")) Yaml::from_string_strict(s, w); else Yaml::from_string(s, w); } catch (CE&) { thr = true; } fsx_check(!thr, "absent pointers and optionals are accepted");
  fsx_check(!w.s == !v.s && !w.u == !v.u && w.o.has_value() == v.o.has_value() && !w.p == !v.p, "exactly the present values are restored"); if (w.s && v.s) fsx_check(*w.s == *v.s, "shared value"); if (w.u && v.u) fsx_check(*w.u == *v.u, "unique value"); if (w.o && v.o) fsx_check(w.o->a == q && w.o->t == "dflt", "optional object"); if (w.p && v.p) fsx_check(w.p->t == "pp" && w.p->a == 1, "shared object"); fsx_cover(m ? "some" : "none"); fsx_obs("m", m);
}
// ================================================================ Y09 type discrimination
SERIALIZABLE_ENUM(Kind, KA, KB, KC)
struct TB : Yaml::TypeDiscriminated<TB, Kind>, Yaml::DerivedFields { virtual ~TB() = default; std::optional<int> field; int n = 0; void derive() { n++; } };
IMPL_YAML_SERIALIZABLE_FOR(TB, type, field)
struct DA : TB::Register<DA, Kind::KA> { int only_a = 3; }; IMPL_YAML_SERIALIZABLE_WITH_BASE(DA, TB, only_a)
struct DB : TB::Register<DB, Kind::KB> { std::string only_b = "b"; }; IMPL_YAML_SERIALIZABLE_WITH_BASE(DB, TB, only_b)
struct Holder { std::vector<std::shared_ptr<TB>> mods; }; IMPL_YAML_SERIALIZABLE_FOR(Holder, mods)
FSX_ENTRY h_types() {
  Node n; unsigned t = fsx_choose(5, "type"); static const char* tn[] = {"KA", "KB", "KC", "bad", nullptr}; if (tn[t]) n["type"] = tn[t]; bool hf = fsx_bool("hf"), ha = fsx_bool("ha"), hb = fsx_bool("hb"), uq = fsx_bool("unique"); int f = num("f"); if (hf) n["field"] = dec(f); if (ha) n["only_a"] = dec(f + 1); if (hb) n["only_b"] = "text";
  std::shared_ptr<TB> p; bool thr = false; try { if (uq) { std::unique_ptr<TB> u; Yaml::deserialize(u, n); p = std::move(u); } else Yaml::deserialize(p, n); } catch (CE&) { thr = true; }
  fsx_check(thr == (t >= 2), "exactly the registered types are accepted"); if (thr) { fsx_check(!p, "a rejected object is not created"); fsx_cover("rejected"); return; }
  fsx_cover("created"); DA* a = dynamic_cast<DA*>(p.get()); DB* b = dynamic_cast<DB*>(p.get()); fsx_check((a != nullptr) == (t == 0) && (b != nullptr) == (t == 1), "the object has the class registered for its type"); fsx_check(p->type == (Kind)t && p->field.has_value() == hf && (!hf || *p->field == f) && p->n == 1, "base fields are loaded and derived once");
  if (a) fsx_check(a->only_a == (ha ? f + 1 : 3), "fields of the derived class"); if (b) fsx_check(b->only_b == (hb ? "text" : "b"), "fields of the derived class are loaded");
  int got = 0; p->apply([&](DA& x) { got = 1; }, [&](DB& x) { got = 2; }); fsx_check(got == (int)t + 1, "apply calls the handler of the object's class"); got = 0; bool r = p->try_apply([&](DB& x) { got = 2; }); fsx_check(r == (t == 1) && got == (t == 1 ? 2 : 0), "try_apply reports whether a handler matched"); bool ex = false; got = 0; try { p->apply([&](DB* x) { got = 2; }); } catch (std::runtime_error&) { ex = true; } fsx_check(ex == (t == 0) && got == (t == 1 ? 2 : 0), "apply rejects an unhandled class");
  got = 0; p->apply([&](TB& x) { got = 9; }, [&](DA& x) { got = 1; }); fsx_check(got == 9, "the first matching handler is called");  got = 0; p->apply([&](const DA& x) { got = 1; }, [&]() { got = 5; }); fsx_check(got == (t == 0 ? 1 : 5), "a handler without arguments is the default");
  Node o; Yaml::serialize(p, o); std::shared_ptr<TB> q; Yaml::deserialize(q, o); fsx_check(q && q->type == p->type && q->field == p->field, "a discriminated object survives serialization"); DA* a2 = dynamic_cast<DA*>(q.get()); DB* b2 = dynamic_cast<DB*>(q.get()); if (a) fsx_check(a2 && a2->only_a == a->only_a, "derived fields survive"); if (b) fsx_check(b2 && b2->only_b == b->only_b, "derived texts survive");
}
FSX_ENTRY h_types_list() {
  unsigned k = fsx_choose(3, "len"), strict = fsx_choose(2, "strict"), bad = fsx_choose(4, "bad"); std::string s = "mods:\n"; int kd[3]; for (unsigned i = 0; i < k; i++) { kd[i] = fsx_choose(2, "kind"); s += "  - type: "; s += kd[i] ? "KB" : "KA"; s += "\n"; if (bad == i + 1) s += kd[i] ? "    only_a: 1\n" : "    only_b: x\n"; }
  if (k == 0) return; Holder h; bool thr = false; std::string path; try { if (strict) Yaml::from_string_strict(s, h); else Yaml::from_string(s, h); } catch (CE& e) { thr = true; path = what(e); }
  bool isbad = bad >= 1 && bad <= k; fsx_check(thr == (strict && isbad), "strict loading knows the fields of each entry's own class"); if (thr) { fsx_check(path == "mods.<" + dec(bad - 1) + ">", "the error names the entry"); fsx_cover("rejected"); return; }
  fsx_check(h.mods.size() == k, "every entry is created"); for (unsigned i = 0; i < k && i < h.mods.size(); i++) fsx_check((dynamic_cast<DB*>(h.mods[i].get()) != nullptr) == (kd[i] == 1) && h.mods[i]->n == 1, "each entry has its class"); fsx_cover("loaded"); fsx_obs("k", k);
  Holder g; Yaml::from_string_strict(Yaml::to_string(h), g); fsx_check(g.mods.size() == k, "a list of discriminated objects survives writing and reading"); for (unsigned i = 0; i < k && i < g.mods.size(); i++) fsx_check(g.mods[i]->type == h.mods[i]->type, "types survive");
}

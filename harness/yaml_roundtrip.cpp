// Y02: Serialize then Parse gives back the same tree.
#include "yaml2.h"
#define PLAIN "aZ09 ':-#|>{}[],&*?=!%@~._/+$;()^`<"
// printable ASCII except the two characters the quoted style cannot carry in a value
static std::string printable(const char* nm, size_t n) { std::string s(n, ' '); for (auto& c : s) { c = (char)fsx_byte_in(nm, 32, 126); fsx_assume(c != '"'); fsx_assume(c != '\\'); } return s; }
template <class L> static void roundtrip(const typename L::Node& r) {
  std::string out; size_t ind = 2 + fsx_choose(3, "indent"); bool smn = fsx_choose(2, "seq_map_newline"), msn = fsx_choose(2, "map_scalar_newline");
  L::ser(r, out, ind, fsx_param("fold", 64), smn, msn);
  typename L::Node p; bool thr = false; try { L::parse(p, out); } catch (typename L::Exc&) { thr = true; }
  fsx_check(!thr, "serialized text is accepted by the parser");
  fsx_check(same_tree(r, p), "re-reading the serialized text gives the same tree");
  std::string again; L::ser(p, again, ind, fsx_param("fold", 64), smn, msn);
  fsx_check(again == out, "serializing is stable");
  fsx_obs_s("out", out);
}
template <class L> static void place(typename L::Node& r, const std::string& v) {   // every kind of position a scalar can have
  switch (fsx_choose(7, "position")) {
    case 0: r["k"] = v; break;
    case 1: r["k"] = v; r["q"] = "y"; r["a"] = "z"; break;
    case 2: r.PushBack() = v; r.PushBack() = "z"; break;
    case 3: r["m"]["k"] = v; r["q"] = "y"; break;
    case 4: r["s"].PushBack() = v; r["s"].PushBack() = v; r["t"] = "y"; break;
    case 5: { auto& x = r.PushBack(); x["k"] = v; x["l"] = v; r.PushBack() = "e"; break; }
    default: { r.PushBack().PushBack() = v; auto& y = r.PushBack(); y["k"]["l"] = v; break; }
  }
}
template <class L> static void h_scalar() { size_t n = fsx_choose(fsx_param("n", 3) + 1, "len"); typename L::Node r; place<L>(r, printable("c", n)); fsx_cover(n ? "nonempty" : "empty"); roundtrip<L>(r); }
template <class L> static void h_key() {
  size_t n = fsx_choose(fsx_param("n", 2), "len") + 1; std::string k(n, ' '); for (auto& c : k) c = (char)fsx_byte_in("k", 32, 126);
  fsx_assume(k[n - 1] != '\\');      // outside the claim: a key ending in a backslash
  typename L::Node r; switch (fsx_choose(3, "position")) { case 0: r[k] = "v"; r["zz"] = "w"; break; case 1: r["m"][k]["x"] = "v"; r["m"]["zz"] = "w"; break; default: { auto& x = r.PushBack(); x[k].PushBack() = "v"; x["zz"] = "w"; r.PushBack() = "e"; } }
  fsx_cover("key"); roundtrip<L>(r);
}
// several lines: no line blank at the beginning or end, first line not indented, no comment sign
template <class L> static void h_lines() {
  size_t n = fsx_choose(fsx_param("n", 4), "len") + 2; std::string v = fsx_string("t", n, "ab :'-\n");
  fsx_assume(v[0] != ' ' && v[0] != '\n'); fsx_assume(v.find('\n') != std::string::npos);
  bool blank = true, ok = true; size_t lastnl = v.rfind('\n');
  for (size_t i = 0; i < n; i++) { if (v[i] == '\n') { if (blank) ok = false; blank = true; } else if (v[i] != ' ') blank = false; }
  if (blank && lastnl != n - 1) ok = false;
  fsx_assume(ok); fsx_cover("text");
  typename L::Node r; place<L>(r, v); roundtrip<L>(r);
}
// long lines are folded; single blanks between words survive
template <class L> static void h_fold() {
  size_t n = fsx_choose(fsx_param("n", 6), "len") + 1; std::string v = fsx_string("f", n, "ab ");
  fsx_assume(v[0] != ' ' && v[n - 1] != ' '); fsx_assume(v.find("  ") == std::string::npos);
  typename L::Node r; switch (fsx_choose(2, "position")) { case 0: r["k"] = v; break; default: r.PushBack() = v; r.PushBack() = "z"; }
  size_t mx = 1 + fsx_choose(4, "max"); std::string out; L::ser(r, out, 2, mx, false, fsx_choose(2, "map_scalar_newline"));
  if (out.find('>') != std::string::npos) fsx_cover("folded");
  typename L::Node p; bool thr = false; try { L::parse(p, out); } catch (typename L::Exc&) { thr = true; }
  fsx_check(!thr, "folded text is accepted by the parser"); fsx_check(same_tree(r, p), "folding does not change the text"); fsx_obs_s("out", out);
}
// arbitrary shapes
template <class L> static void grow(typename L::Node& n, int depth, int width, int& id) {
  unsigned k = fsx_choose(depth > 0 ? 3 : 1, "kind");
  if (k == 0) { static const char* vals[] = {"v", "", "- x", "a: b", " s ", "#"}; n = vals[fsx_choose(id++ % 2 ? 6 : 2, "scalar")]; return; }
  unsigned c = 1 + fsx_choose(width, "children"); if (k == 1) { for (unsigned i = 0; i < c; i++) grow<L>(n.PushBack(), depth - 1, width, id); fsx_cover("sequence"); }
  else { static const char* ks[] = {"b", "a", "c d"}; for (unsigned i = 0; i < c; i++) grow<L>(n[ks[i]], depth - 1, width, id); fsx_cover("map"); }
}
template <class L> static void h_shape() { typename L::Node r; int id = 0; grow<L>(r, fsx_param("depth", 2), fsx_param("width", 2), id); roundtrip<L>(r); }
FSX_BOTH(h_scalar) FSX_BOTH(h_key) FSX_BOTH(h_lines) FSX_BOTH(h_fold) FSX_BOTH(h_shape)

// Y01: any byte string is either rejected with a Yaml exception (leaving the root empty) or builds a well-formed tree;
// no memory error, no hang, no leak. Arbitrary documents of n bytes, and n arbitrary bytes in the holes of templates
// that reach the block scalar, quote, flow, comment and nesting code.
#include "yaml2.h"
template <class N> static size_t walk(const N& n, int depth) {
  size_t c = 1; fsx_check(depth < 64, "tree depth is bounded by the document length");
  if (n.IsScalar()) { auto s = n.template As<std::string>(); c += s.size(); fsx_check(n.Size() == 0, "a scalar has no children"); }
  if (n.IsSequence() || n.IsMap()) {
    size_t k = 0;
    for (auto it = n.Begin(); it != n.End(); it++) { auto p = *it; c += p.first.size() + walk(p.second, depth + 1); k++; if (n.IsSequence()) fsx_check(p.first.empty(), "sequence entries have no key"); }
    fsx_check(k == n.Size(), "iteration visits Size() children");
  }
  return c;
}
template <class N, class E, class P> static void parse_doc(P parse, const std::string& s) {
  size_t h0 = fsx_heap_live();
  {
    N r; r["old"] = "content"; bool threw = false;
    try { parse(r, s); } catch (E&) { threw = true; }
    if (threw) { fsx_cover("rejected"); fsx_check(r.IsNone() && r.Size() == 0, "a rejected document leaves the root empty"); }
    else { fsx_cover("accepted"); size_t w = walk(r, 0); fsx_obs("walk", w); if (r.IsMap()) fsx_cover("map"); if (r.IsSequence()) fsx_cover("sequence"); if (r.IsScalar()) fsx_cover("scalar"); }
    fsx_obs("threw", threw); fsx_obs("type", (int)r.Type());
  }
  fsx_check(fsx_heap_live() == h0, "parsing releases everything it allocated");
}
static std::string templ(size_t n) {
  static const char* pre[] = {"a: |\n", "a: >\n", "a: |-\n  x\n", "- - ", "a:\n  b:", "a: \"", "a: '", "---\n", "a: b #", "- a: b\n", "a: >\n  x\n\n", "\"", "'", "a: ", "- ", "a:\n", "a:\n  - ", "-\n  "};
  static const char* post[] = {"", "\n  y\n", "\n", "\n- z\n", "\nc: d\n"};
  unsigned t = fsx_choose(sizeof pre / sizeof *pre, "prefix"), u = fsx_choose(sizeof post / sizeof *post, "suffix");
  return pre[t] + fsx_string_any("b", n) + post[u];
}
static void legacy(const std::string& s) { parse_doc<Yaml::Node, Yaml::Exception>([](Yaml::Node& r, const std::string& s) { Yaml::Parse(r, s); }, s); }
static void apps(const std::string& s) { parse_doc<YamlM::Node, YamlM::Exception>([](YamlM::Node& r, const std::string& s) { YamlM::Parse(r, s); }, s); }
FSX_ENTRY h_bytes_legacy() { legacy(fsx_string_any("b", fsx_choose(fsx_param("n", 3) + 1, "len"))); }
FSX_ENTRY h_bytes_apps() { apps(fsx_string_any("b", fsx_choose(fsx_param("n", 3) + 1, "len"))); }
FSX_ENTRY h_templ_legacy() { legacy(templ(fsx_param("n", 2))); }
FSX_ENTRY h_templ_apps() { apps(templ(fsx_param("n", 2))); }

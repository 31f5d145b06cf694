// Y03: a YAML node behaves as a value-semantic list / dictionary / text, for every history of operations.
#include "yaml2.h"
// ---- sequences against an index->value list
template <class L> static void h_seq() {
  typedef typename L::Node Node; size_t h0 = fsx_heap_live();
  {
    Node n; std::map<size_t, int> m; int id = 1; bool any = false; unsigned ops = fsx_param("ops", 4);
    auto put = [&](size_t i) { m[i] = id; };
    auto shift = [&](size_t i) { std::map<size_t, int> t; for (auto& x : m) t[x.first < i ? x.first : x.first + 1] = x.second; m = t; };
    for (unsigned o = 0; o < ops; o++, id++) {
      std::string v(1, (char)('a' + id));
      switch (fsx_choose(4, "op")) {
        case 0: n.PushBack() = v; put(m.empty() ? 0 : m.rbegin()->first + 1); any = true; break;
        case 1: n.PushFront() = v; shift(0); put(0); any = true; break;
        case 2: { size_t i = fsx_choose(ops + 1, "index"); n.Insert(i) = v; if (i >= m.size()) put(m.empty() ? 0 : m.rbegin()->first + 1); else { shift(i); put(i); } any = true; break; }
        default: { size_t i = fsx_choose(ops + 1, "index"); n.Erase(i); m.erase(i); if (any) fsx_cover("erase"); break; }
      }
      fsx_check(n.Size() == m.size(), "the sequence has as many entries as were added and not erased");
      auto it = n.Begin(); auto e = n.End(); auto j = m.begin();
      for (; it != e; it++, j++) { fsx_check(j != m.end(), "iteration visits no extra entry"); if (j == m.end()) break; fsx_check((*it).second.template As<std::string>() == std::string(1, (char)('a' + j->second)), "entries keep their order and content"); }
      fsx_check(j == m.end(), "iteration visits every entry");
    }
    fsx_check(any ? n.IsSequence() : n.IsNone(), "the node is a sequence");
    Node c(n); if (n.Size()) fsx_check(same_tree(c, n), "a copy equals its source"); else fsx_check(c.Size() == 0, "a copy of an empty sequence is empty");
    for (size_t i = 0; i < 2 * ops + 2; i++) { auto f = m.find(i); Node& x = n[i]; if (f == m.end()) fsx_check(x.IsNone(), "an unknown index reads as none"); else fsx_check(x.template As<std::string>() == std::string(1, (char)('a' + f->second)), "lookup by index finds the entry"); }
    fsx_obs("size", n.Size());
  }
  fsx_check(fsx_heap_live() == h0, "everything allocated is released");
}
// ---- maps against a dictionary; nested nodes; copies stay independent
template <class L> static void h_map() {
  typedef typename L::Node Node; size_t h0 = fsx_heap_live();
  {
    Node n; std::map<std::string, std::string> m; unsigned ops = fsx_param("ops", 3); Node snap; std::map<std::string, std::string> msnap; bool made = false;
    auto cmp = [](const Node& a, const std::map<std::string, std::string>& b) { if (a.Size() != b.size()) return false; auto j = b.begin(); auto e = a.End(); for (auto i = a.Begin(); i != e; i++, j++) if ((*i).first != j->first || (*i).second.template As<std::string>() != j->second) return false; return true; };
    n["z"] = "0"; m["z"] = "0";
    for (unsigned o = 0; o < ops; o++) {
      static const char* ks[] = {"a", "b", "z", "za", ""}; std::string k = ks[fsx_choose(5, "key")];
      switch (fsx_choose(5, "op")) {
        case 0: { std::string v(1, (char)fsx_byte("v")); n[k] = v; m[k] = v; break; }
        case 1: n.Erase(k); m.erase(k); break;
        case 2: snap = n; msnap = m; made = true; break;
        case 3: { Node t(n); t["z"] = "changed"; t["new"] = "x"; t.Erase("a"); break; }
        default: { n[k]; if (!m.count(k)) m[k] = ""; break; }
      }
      fsx_check(cmp(n, m), "the map holds the last value stored under each key");
      if (made) { fsx_check(cmp(snap, msnap), "a copy does not change with its source"); fsx_cover("copy"); }
    }
    fsx_obs("size", n.Size());
  }
  fsx_check(fsx_heap_live() == h0, "everything allocated is released");
}
// ---- assignment among nodes of one tree, type changes, clearing
template <class L> static void h_alias() {
  typedef typename L::Node Node; size_t h0 = fsx_heap_live();
  {
    Node n; 
    auto fill = [](Node& r, unsigned k) { switch (k) { case 0: r = "t"; break; case 1: r["a"] = "p"; r["b"]["c"] = "q"; break; case 2: r.PushBack() = "p"; r.PushBack()["c"] = "q"; break; default: break; } };
    unsigned kind = fsx_choose(4, "kind"); fill(n, kind); Node keep(n);
    fsx_check(same_tree(n, keep) && same_tree(keep, n), "copy construction copies the tree");
    switch (fsx_choose(6, "op")) {
      case 0: n = n; fsx_check(same_tree(n, keep), "self assignment changes nothing"); fsx_cover("self"); break;
      case 1: { Node exp(keep["b"]); fill(n, 1); n = n["b"]; Node e2; e2["c"] = "q"; fsx_check(same_tree(n, e2), "a node can be replaced by its own child"); fsx_cover("child"); break; }
      case 2: { n["x"] = n; Node e(keep); if (kind != 1) e.Clear(); bool m1 = n.IsMap(); fsx_check(m1 && n.Size() >= 1, "a node can be stored below itself"); break; }
      case 3: n.Clear(); fsx_check(n.IsNone() && n.Size() == 0 && n.template As<std::string>("d") == "d", "clearing empties the node"); break;
      case 4: { Node o; fill(o, fsx_choose(4, "other")); Node ok(o); n = o; fsx_check(same_tree(n, ok) && same_tree(o, ok), "assignment replaces the content and leaves the source"); Node e; n = e; fsx_check(n.IsNone(), "assigning an empty node empties"); fsx_check(same_tree(o, ok), "the source is independent"); break; }
      default: { n = "text"; fsx_check(n.IsScalar() && n.Size() == 0 && n.template As<std::string>() == "text", "a text replaces any content"); n["k"] = "v"; fsx_check(n.IsMap() && n.Size() == 1, "a text becomes a map"); n.PushBack() = "w"; fsx_check(n.IsSequence() && n.Size() == 1, "a map becomes a sequence"); break; }
    }
    // iterating any node ends after Size() children; iterator copies are independent
    const Node& cn = n; size_t a = 0, b = 0; for (auto i = n.Begin(); i != n.End(); i++) a++; for (auto i = cn.Begin(); i != cn.End(); i++) b++;
    fsx_check(a == n.Size() && b == n.Size(), "iteration of any node visits exactly its children");
    if (n.Size()) { auto i = n.Begin(); auto j = i; i++; fsx_check(j == n.Begin() && i != j, "advancing an iterator leaves its copy"); i--; fsx_check(i == j, "stepping back undoes stepping forward"); j = n.End(); j--; auto s = (*j).first; fsx_obs("last", s.size()); auto c = cn.Begin(); auto d = c; d++; c = d; fsx_check(c == d, "iterator assignment"); }
    fsx_obs("type", (int)n.Type());
  }
  fsx_check(fsx_heap_live() == h0, "everything allocated is released");
}
FSX_BOTH(h_seq) FSX_BOTH(h_map) FSX_BOTH(h_alias)

// Both copies of the YAML library, in separate namespaces.
#pragma once
#include "fsx.h"
#include <string>
#include <vector>
#include <list>
#include <map>
#include <set>
#include <algorithm>
#include <exception>
#include <stdexcept>
#include <iostream>
#include <sstream>
#include <fstream>
#include <cstdio>
#include <cstdarg>
#include <cstring>
#define Yaml YamlM
#include "apps/multiphysics/src/input/Yaml.hpp"
#include "apps/multiphysics/src/input/Yaml.cpp"
#undef Yaml
#include "legacy/Fierro_V0/src/Yaml-Serializable/include/Yaml.hpp"
#include "legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp"
struct LibL { typedef Yaml::Node Node; typedef Yaml::Exception Exc; typedef Yaml::Iterator It; typedef Yaml::ConstIterator CIt;
  static void parse(Node& r, const std::string& s) { Yaml::Parse(r, s); }
  static void ser(const Node& r, std::string& s, size_t ind, size_t mx, bool a, bool b) { Yaml::Serialize(r, s, Yaml::SerializeConfig(ind, mx, a, b)); }
  static std::string ser(const Node& r) { std::string s; Yaml::Serialize(r, s); return s; } };
struct LibA { typedef YamlM::Node Node; typedef YamlM::Exception Exc; typedef YamlM::Iterator It; typedef YamlM::ConstIterator CIt;
  static void parse(Node& r, const std::string& s) { YamlM::Parse(r, s); }
  static void ser(const Node& r, std::string& s, size_t ind, size_t mx, bool a, bool b) { YamlM::Serialize(r, s, YamlM::SerializeConfig(ind, mx, a, b)); }
  static std::string ser(const Node& r) { std::string s; YamlM::Serialize(r, s); return s; } };
// Structural equality of two trees, possibly of the two libraries.
template <class A, class B> static bool same_tree(const A& a, const B& b) {
  if ((int)a.Type() != (int)b.Type() || a.Size() != b.Size()) return false;
  if (a.IsScalar()) return a.template As<std::string>() == b.template As<std::string>();
  if (a.IsSequence() || a.IsMap()) { auto i = a.Begin(); auto j = b.Begin(); auto e = a.End(); auto f = b.End();
    for (; i != e; i++, j++) { if (!(j != f)) return false; auto x = *i; auto y = *j; if (x.first != y.first || !same_tree(x.second, y.second)) return false; }
    if (j != f) return false; }
  return true;
}
#define FSX_BOTH(name) FSX_ENTRY name##_legacy() { name<LibL>(); } FSX_ENTRY name##_apps() { name<LibA>(); }

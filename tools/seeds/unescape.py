import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__)))); import seedlib
id = 'unescape'; property = 'Y02'
edits = [('apps/multiphysics/src/input/Yaml.cpp', 'found = input.find_first_of("\\\\", found + 1);', 'found = input.find_first_of("\\\\", found + 2);')]
demo, files = seedlib.yaml(r'''
#include "Yaml.hpp"
#include <cstdio>
int main() { int bad = 0; for (std::string t : {"a", "a:b", "\"x", "\"\"", "x\"\"y"}) { Yaml::Node n, m; n[t] = "v"; std::string s; Yaml::Serialize(n, s); try { Yaml::Parse(m, s); } catch (Yaml::Exception& e) { printf("%s rejected\n", s.c_str()); bad = 1; continue; } if (m[t].As<std::string>() != "v") { printf("key [%s] lost in %s\n", t.c_str(), s.c_str()); bad = 1; } } return bad; }
''', legacy=False)
needs = 'a quoted key with two escaped characters next to each other'
what = 'one of the backslashes stays in the key that is read back'

id = 'seq_pushback'
property = 'Y03'
edits = [('legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp', '                auto it = m_Sequence.end();\n                --it;\n                index = it->first + 1;', '                index = m_Sequence.size();')]
demo = '#!/bin/bash\n# builds demo.cpp against the current tree and runs it\nD=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d) || exit 2; trap \'rm -rf "$T"\' EXIT\ng++ -std=c++17 -O1 -w -Ilegacy/Fierro_V0/src/Yaml-Serializable/include -o "$T/demo" "$D/demo.cpp" legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp || exit 3\ncd "$T" && timeout 60 ./demo\n'
files = {'demo.cpp': '#include "Yaml.hpp"\n#include <cstdio>\nint main() { Yaml::Node n; n.PushBack() = "a"; n.PushBack() = "b"; n.PushBack() = "c"; n.Erase(0); n.PushBack() = "d"; std::string s; for (auto it = n.Begin(); it != n.End(); it++) s += (*it).second.As<std::string>(); printf("%s size %zu\\n", s.c_str(), n.Size()); return s != "bcd" || n.Size() != 3; }\n'}
needs = 'appending to a sequence after an entry other than the last was erased'
what = 'the appended node collides with the last entry: it is leaked and never becomes part of the sequence'

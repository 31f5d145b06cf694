id = 'bool_case'
property = 'Y05'
edits = [('apps/multiphysics/src/input/Yaml.hpp', 'std::transform(tmpData.begin(), tmpData.end(), tmpData.begin(), ::tolower);', 'std::transform(tmpData.begin(), tmpData.begin() + std::min<size_t>(tmpData.size(), 3), tmpData.begin(), ::tolower);')]
demo = '#!/bin/bash\n# builds demo.cpp against the current tree and runs it\nD=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d) || exit 2; trap \'rm -rf "$T"\' EXIT\ng++ -std=c++17 -O1 -w -Iapps/multiphysics/src/input -o "$T/demo" "$D/demo.cpp" apps/multiphysics/src/input/Yaml.cpp || exit 3\ncd "$T" && timeout 60 ./demo\n'
files = {'demo.cpp': '#include "Yaml.hpp"\n#include <cstdio>\nint main() { int bad = 0; for (const char* s : {"true", "True", "TRUE", "yes", "YES", "trUE"}) { Yaml::Node n; n = s; if (!n.As<bool>()) { printf("%s reads as false\\n", s); bad = 1; } } return bad; }\n'}
needs = 'the word true with a capital last letter'
what = 'As<bool> is false for TRUE'

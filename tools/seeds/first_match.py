id = 'first_match'
property = 'Y09'
edits = [('legacy/Fierro_V0/src/Yaml-Serializable/include/type-discrimination.h', 'return dispatcher(base, f) || dispatcher(base, f2, rest...);', 'return dispatcher(base, f2, rest...) || dispatcher(base, f);')]
demo = '#!/bin/bash\n# builds demo.cpp against the current tree and runs it\nD=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d) || exit 2; trap \'rm -rf "$T"\' EXIT\ng++ -std=c++17 -O1 -w -Ilegacy/Fierro_V0/src/Yaml-Serializable/include -o "$T/demo" "$D/demo.cpp" legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp || exit 3\ncd "$T" && timeout 60 ./demo\n'
files = {'demo.cpp': '#include "yaml-serializable.h"\n#include <cstdio>\nSERIALIZABLE_ENUM(K, A, B)\nstruct Sh : Yaml::TypeDiscriminated<Sh, K> { virtual ~Sh() = default; }; IMPL_YAML_SERIALIZABLE_FOR(Sh, type)\nstruct SA : Sh::Register<SA, K::A> { int r = 0; }; IMPL_YAML_SERIALIZABLE_WITH_BASE(SA, Sh, r)\nint main() { std::shared_ptr<Sh> p; Yaml::from_string("type: A\\nr: 3", p); int first = 0; p->apply([&](SA& a) { if (!first) first = 1; }, [&](Sh& b) { if (!first) first = 2; }); printf("handler %d\\n", first); return first != 1; }\n'}
needs = 'two handlers that both match the object, the specific one listed first'
what = 'apply calls the last instead of the first matching handler'

id = 'required_after_base'
property = 'Y07'
edits = [('legacy/Fierro_V0/src/Yaml-Serializable/include/serializable-struct.h', '            validate_required_fields<CLASS_NAME>(node);                                         \\\n            deserialize<BASE_CLASS>(*(BASE_CLASS*)&obj, node, raw);                             \\\n', '            deserialize<BASE_CLASS>(*(BASE_CLASS*)&obj, node, raw);                             \\\n            validate_required_fields<CLASS_NAME>(node);                                         \\\n')]
demo = '#!/bin/bash\n# builds demo.cpp against the current tree and runs it\nD=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d) || exit 2; trap \'rm -rf "$T"\' EXIT\ng++ -std=c++17 -O1 -w -Ilegacy/Fierro_V0/src/Yaml-Serializable/include -o "$T/demo" "$D/demo.cpp" legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp || exit 3\ncd "$T" && timeout 60 ./demo\n'
files = {'demo.cpp': '#include "yaml-serializable.h"\n#include <cstdio>\nstruct Bs { int a = 1; }; IMPL_YAML_SERIALIZABLE_FOR(Bs, a)\nstruct De : Bs { int b = 2; };\nYAML_ADD_REQUIRED_FIELDS_FOR(De, b)\nIMPL_YAML_SERIALIZABLE_WITH_BASE(De, Bs, b)\nint main() { De d; bool thr = false; try { Yaml::from_string("a: 9", d); } catch (Yaml::ConfigurationException&) { thr = true; } printf("rejected %d, a = %d\\n", thr, d.a); return !thr || d.a != 1; }\n'}
needs = 'a class with a base and a required field of its own, loaded over an existing object from a document that lacks the field'
what = 'the base part of the object is already overwritten when the document is rejected'

"""Adds SerializeAsCord (which the installed Protobuf lacks) to the messages of
a generated header."""
import sys
for path in sys.argv[1:]:
    s = open(path).read()
    marker = "// @@protoc_insertion_point(class_scope:"
    parts = s.split(marker)
    s = (" public:\n  ::absl::Cord SerializeAsCord() const { return ::absl::Cord(SerializeAsString()); }\n  " + marker).join(parts)
    inc = "#include <string>\n"
    assert inc in s
    s = s.replace(inc, inc + '#include "absl/strings/cord.h"\n', 1)
    open(path, "w").write(s)

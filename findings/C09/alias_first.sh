# The comparator is named after the typedef of the record that the header uses first, so that it cannot be requested by its own name.
printf 'typedef struct { int a; int b; } S;\ntypedef S T;\nint f(T a);\nint g(S a);\n' > h.h
mkdir o && "$GEN" -i h.h -o o --generate-comparator-of S || exit 1
grep -q 'cmp_S *(' o/easyMock_h.h

# A multi-dimensional array field is compared as an array of pointers: the rows' addresses always differ.
printf 'struct s { int f[2][3]; };\nint fn(struct s *p);\n' > h.h
mkdir o && "$GEN" -i h.h -o o --generate-comparator-of s || exit 1
printf '#include "h.h"\n#include "easyMock_h.h"\nint main(void) { struct s a = {{{1,2,3},{4,5,6}}}, b = a; char m[EASYMOCK_MAX_CMP_ERR] = ""; return cmp_struct_s(&a, &b, "p", m) != 0; }\n' > u.c
gcc -w u.c o/easyMock_h.c -Io -I. -I"$FWINC" "$FWLIB" -Wl,-rpath,"$(dirname "$FWLIB")" -o u && ./u

# All dimensions but the first of an array are lost in the generated types.
printf 'struct s { int f[2][3]; };\nint fn(struct s *p);\n' > h.h
mkdir o && "$GEN" -i h.h -o o --generate-types || exit 1
printf '#include "easyMock_h.h"\n_Static_assert(sizeof(struct s) == 6 * sizeof(int), "");\n' > u.c
gcc -w -fsyntax-only u.c -Io -I"$FWINC"

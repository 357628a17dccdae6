# The typedef of an array is not generated: the generated header uses an undeclared name.
printf 'typedef int Ta[3];\nstruct s { Ta f; };\nint fn(struct s *p, Ta q);\n' > h.h
mkdir o && "$GEN" -i h.h -o o --generate-types || exit 1
printf '#include "easyMock_h.h"\n_Static_assert(sizeof(struct s) == 3 * sizeof(int), "");\nint main(void) { Ta a; return sizeof a != 12; }\n' > u.c
gcc -w u.c -o u -Io -I"$FWINC" -Wl,--unresolved-symbols=ignore-all && ./u

# A function that uses a _Complex, _Atomic, vector or __float128 type cannot be mocked; the generator says so and fails.
printf 'double f(_Complex double a);\n_Atomic int *g(void);\n__float128 h(__float128 a);\n' > h.h
mkdir o && "$GEN" -i h.h -o o

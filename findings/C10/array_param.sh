# All dimensions but the first of an array parameter are lost: the mock's prototype conflicts with the original.
printf 'int fn(int p[2][3]);\n' > h.h
mkdir o && "$GEN" -i h.h -o o || exit 1
gcc -w -c o/easyMock_h.c -o m.o -I. -Io -I"$FWINC"

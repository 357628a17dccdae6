# exit 0: the attribute of f is declared again as written after preprocessing
cat > a.h <<'H'
#define NN(x) __attribute__((nonnull(x)))
void f(int *p) NN(1);
H
"$GEN" -i a.h -o . --generate-attribute nonnull > log 2>&1 || exit 1
grep -q 'nonnull *( *1 *)' easyMock_a.h

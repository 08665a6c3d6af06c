struct @S { int a; int b; int c; };
int @f(struct @S s) { return s.a; }
void @main(void) { put_i(1); }

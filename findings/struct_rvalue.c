struct @S { int a; int b; int c; };
void @main(void) { struct @S s; s.a = 1; s; put_i(s.a); }

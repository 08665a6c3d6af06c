int @f(struct @S { int a; int b; }* p) { return p->b; }
struct @S { char c; char d; };
void @main(void) { struct @S s; s.d = 7; put_i(s.d); put_i(sizeof(s)); }

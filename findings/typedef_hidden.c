typedef int @T;
void @main(void) { int x; x = 1; { int @T; @T = 3; x = @T; } put_i(x); }

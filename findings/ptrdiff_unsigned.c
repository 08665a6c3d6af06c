void @main(void) { int a[4]; int* p; int* q; p = &a[3]; q = a; put_i(q - p < 1); }

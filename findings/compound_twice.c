void @main(void) { int a[4]; int i; i = 0; a[0] = 1; a[1] = 2; a[2] = 3; a[3] = 4; a[i++] += 5; put_i(i); put_i(a[0]); put_i(a[1]); }

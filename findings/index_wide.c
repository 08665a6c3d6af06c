void @main(void) { int* p; int i; i = 600000000; p = (int*)big_area(); put_l((char*)(p + i) - (char*)p); }

void @main(void) { put_i(sizeof(int) - 5 < 0); }

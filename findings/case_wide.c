void @main(void) { int x; x = 1; switch (x) { case 4294967297: put_i(1); break; default: put_i(2); } }

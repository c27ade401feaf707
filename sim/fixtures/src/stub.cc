extern "C" void __cxa_pure_virtual() { for (;;) {} }


// With the layouts of this machine.
#define __x86_64__ 1
#include_next <bits/struct_rwlock.h>
#undef __x86_64__

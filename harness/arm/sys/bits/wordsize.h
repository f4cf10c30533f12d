// In the place of this machine's, which takes other machines for 32-bit ones.
#define __WORDSIZE 64
#define __WORDSIZE_TIME64_COMPAT32 1
#define __SYSCALL_WORDSIZE 64

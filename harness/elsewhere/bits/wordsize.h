// How wide the words of the machine compiled for are.
#if __SIZEOF_POINTER__ == 8
# define __WORDSIZE 64
#else
# define __WORDSIZE 32
# define __WORDSIZE32_SIZE_ULONG 0
# define __WORDSIZE32_PTRDIFF_LONG 0
#endif
#define __WORDSIZE_TIME64_COMPAT32 0
#define __SYSCALL_WORDSIZE __WORDSIZE

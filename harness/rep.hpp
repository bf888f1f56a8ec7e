// -DPART selects the representation under test.
#if PART == 0
using Rep = int;
#elif PART == 1
using Rep = unsigned;
#elif PART == 2
using Rep = long long;
#elif PART == 3
using Rep = unsigned long long;
#elif PART == 4
using Rep = long;
#else
using Rep = unsigned long;
#endif

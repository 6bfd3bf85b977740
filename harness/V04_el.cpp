// @run quick KIND=pair ID=uint32_t
// @run quick KIND=tuple3 ID=uint64_t
// @run quick KIND=dataev ID=int32_t
// @run quick KIND=descev ID=int64_t
// @run thorough KIND=tuple4 ID=int32_t N=5
// @run thorough KIND=desc ID=uint8_t N=5
// @bounds edgelist over edge lists of at most N (default 3) elements of the form KIND with ids of type ID, held in a vector, a list, a forward_list or read through a view; every id and every 64-bit value
// @covers edge
#include "E01.cpp"

// the loop-nest study of /repo/learning, without its main (see t_iter.cpp)
#include "MetaProgrammingCPP.cpp"

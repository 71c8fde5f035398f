#define VH_CRT 1
#include "lib_rapidjson.cpp"

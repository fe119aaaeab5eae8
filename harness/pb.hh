#pragma once
#ifdef IRV_SYMBOLIC
extern "C" void irv_pb_init();
#else
inline void irv_pb_init() {}
#endif

// Template instantiations are spread over translation units: unit PART instantiates the rows of CONFIGS(X) whose
// second column is PART.  Include after defining CONFIGS.
#pragma once
#ifndef PART
#error "PART is not defined"
#endif
using CaseFn = void (*)(pbt::Src&);
#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
inline std::map<std::size_t, CaseFn>& configs() {
	static std::map<std::size_t, CaseFn> m;
	return m;
}
struct ConfigAdd {
	ConfigAdd(std::size_t i, CaseFn f) { configs()[i] = f; }
};
#define PBT_UNPAREN(...) __VA_ARGS__
// Only the rows of this unit are instantiated.
#if PART == 0
#define PBT_P0(i, f) static ConfigAdd PBT_CAT(cfg_, i)(i, PBT_UNPAREN f);
#define PBT_P1(i, f)
#define PBT_P2(i, f)
#define PBT_P3(i, f)
#define PBT_P4(i, f)
#define PBT_P5(i, f)
#elif PART == 1
#define PBT_P0(i, f)
#define PBT_P1(i, f) static ConfigAdd PBT_CAT(cfg_, i)(i, PBT_UNPAREN f);
#define PBT_P2(i, f)
#define PBT_P3(i, f)
#define PBT_P4(i, f)
#define PBT_P5(i, f)
#elif PART == 2
#define PBT_P0(i, f)
#define PBT_P1(i, f)
#define PBT_P2(i, f) static ConfigAdd PBT_CAT(cfg_, i)(i, PBT_UNPAREN f);
#define PBT_P3(i, f)
#define PBT_P4(i, f)
#define PBT_P5(i, f)
#elif PART == 3
#define PBT_P0(i, f)
#define PBT_P1(i, f)
#define PBT_P2(i, f)
#define PBT_P3(i, f) static ConfigAdd PBT_CAT(cfg_, i)(i, PBT_UNPAREN f);
#define PBT_P4(i, f)
#define PBT_P5(i, f)
#elif PART == 4
#define PBT_P0(i, f)
#define PBT_P1(i, f)
#define PBT_P2(i, f)
#define PBT_P3(i, f)
#define PBT_P4(i, f) static ConfigAdd PBT_CAT(cfg_, i)(i, PBT_UNPAREN f);
#define PBT_P5(i, f)
#else
#define PBT_P0(i, f)
#define PBT_P1(i, f)
#define PBT_P2(i, f)
#define PBT_P3(i, f)
#define PBT_P4(i, f)
#define PBT_P5(i, f) static ConfigAdd PBT_CAT(cfg_, i)(i, PBT_UNPAREN f);
#endif
#define PBT_X(i, p, f) PBT_CAT(PBT_P, p)(i, f)
CONFIGS(PBT_X)

inline void run_config(pbt::Src& src, std::size_t n) {
	configs().at(src.draw(n))(src);
}

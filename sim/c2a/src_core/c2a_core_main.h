// Stand-in for the C2A flight software: records what the simulator does with it.
#pragma once
#include <stdint.h>
#include <string>
#include <vector>
#define C2A_CORE_VER_MAJOR 4
#define CSP_MAX_LEN 432
typedef enum { CMD_CODE_NONE = 0 } CMD_CODE;
typedef enum { TLCD_ID_FROM_GS = 1 } TLCD_ID;
namespace sim { struct C2aCall { int kind; uint32_t ti; unsigned long code; std::vector<uint8_t> param; long tick; }; inline std::vector<C2aCall> g_c2a_calls; inline long g_c2a_tick = 0; inline std::string g_c2a_life; }
inline void C2A_core_init() { sim::g_c2a_life += 'I'; }
inline void TMGR_init() { sim::g_c2a_life += 'T'; }
inline void TMGR_clear() { sim::g_c2a_life += 'Z'; }
inline void WDT_init() { sim::g_c2a_life += 'W'; }
inline void TMGR_count_up_master_clock() { sim::g_c2a_life += 'c'; }
inline void TDSP_execute_pl_as_task_list() { sim::g_c2a_life += 'x'; }
inline int CCP_register_rtc(CMD_CODE id, const uint8_t* p, uint16_t n) { sim::g_c2a_calls.push_back({0, 0, (unsigned long)id, std::vector<uint8_t>(p, p + n), sim::g_c2a_tick}); return 0; }
inline int CCP_register_tlc(uint32_t ti, TLCD_ID, CMD_CODE id, const uint8_t* p, uint16_t n) { sim::g_c2a_calls.push_back({1, ti, (unsigned long)id, std::vector<uint8_t>(p, p + n), sim::g_c2a_tick}); return 0; }

#pragma once
#define LOG_LEVEL_NONE 0U
#define LOG_LEVEL_ERR 1U
#define LOG_LEVEL_WRN 2U
#define LOG_LEVEL_INF 3U
#define LOG_LEVEL_DBG 4U
extern "C" void zephyr_stub_log(unsigned level, const char* fmt, const char* msg);
#ifdef __cplusplus
inline void zephyr_stub_log_text(unsigned level, const char* fmt) { zephyr_stub_log(level, fmt, nullptr); }
inline void zephyr_stub_log_text(unsigned level, const char* fmt, const char* msg) { zephyr_stub_log(level, fmt, msg); }
#endif
#define LOG_MODULE_REGISTER(...) struct log_module_registered
#define LOG_MODULE_DECLARE(...) struct log_module_declared
#define LOG_ERR(...) zephyr_stub_log_text(LOG_LEVEL_ERR, __VA_ARGS__)
#define LOG_WRN(...) zephyr_stub_log_text(LOG_LEVEL_WRN, __VA_ARGS__)
#define LOG_INF(...) zephyr_stub_log_text(LOG_LEVEL_INF, __VA_ARGS__)
#define LOG_DBG(...) zephyr_stub_log_text(LOG_LEVEL_DBG, __VA_ARGS__)

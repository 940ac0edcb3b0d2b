// The part of the Zephyr kernel the library uses, as declarations: what it does is up to the witness.
#pragma once
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
extern "C" {
int64_t k_uptime_get(void);
int64_t k_uptime_ticks(void);
uint32_t k_ticks_to_us_near32(uint32_t ticks);
uint64_t k_ticks_to_us_near64(uint64_t ticks);
uint32_t k_ticks_to_us_floor32(uint32_t ticks);
uint64_t k_ticks_to_us_floor64(uint64_t ticks);
uint32_t k_uptime_get_32(void);
int32_t k_msleep(int32_t ms);
int32_t k_usleep(int32_t us);
void k_busy_wait(uint32_t us);
void k_panic(void);
}

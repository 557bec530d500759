// The part of the FreeRTOS API that the library uses, on the simulated kernel (sim/backend_freertos.cpp)
#pragma once
#define INC_FREERTOS_H
#include <stddef.h>
#include <stdint.h>
#include "FreeRTOSConfig.h"
#ifndef configSUPPORT_DYNAMIC_ALLOCATION
#define configSUPPORT_DYNAMIC_ALLOCATION 1
#endif
typedef long BaseType_t;
typedef unsigned long UBaseType_t;
typedef uint32_t TickType_t;
#define pdFALSE ((BaseType_t)0)
#define pdTRUE ((BaseType_t)1)
#define pdPASS pdTRUE
#define pdFAIL pdFALSE
#define portMAX_DELAY ((TickType_t)0xffffffffUL)
extern "C" uint32_t simTickRate;   // chosen anew for every run
#undef configTICK_RATE_HZ
#define configTICK_RATE_HZ simTickRate
#define portTICK_PERIOD_MS ((TickType_t)1000 / configTICK_RATE_HZ)
#define pdMS_TO_TICKS(ms) ((TickType_t)(((uint64_t)(ms) * (uint64_t)configTICK_RATE_HZ) / (uint64_t)1000U))
#ifdef __cplusplus
extern "C" {
#endif
BaseType_t xPortIsInsideInterrupt(void);
void* pvPortMalloc(size_t n);
void vPortFree(void* p);
#ifdef __cplusplus
}
#endif

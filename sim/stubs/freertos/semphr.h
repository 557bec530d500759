#pragma once
#include "FreeRTOS.h"
#ifdef __cplusplus
extern "C" {
#endif
struct QueueDefinition;
typedef struct QueueDefinition* SemaphoreHandle_t;
SemaphoreHandle_t xSemaphoreCreateBinary(void);
SemaphoreHandle_t xSemaphoreCreateMutex(void);
SemaphoreHandle_t xSemaphoreCreateCounting(UBaseType_t max, UBaseType_t initial);
void vSemaphoreDelete(SemaphoreHandle_t s);
BaseType_t xSemaphoreTake(SemaphoreHandle_t s, TickType_t ticks);
BaseType_t xSemaphoreGive(SemaphoreHandle_t s);
BaseType_t xSemaphoreTakeFromISR(SemaphoreHandle_t s, BaseType_t* woken);
BaseType_t xSemaphoreGiveFromISR(SemaphoreHandle_t s, BaseType_t* woken);
UBaseType_t uxSemaphoreGetCount(SemaphoreHandle_t s);
#ifdef __cplusplus
}
#endif

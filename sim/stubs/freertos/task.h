#pragma once
#include "FreeRTOS.h"
#ifdef __cplusplus
extern "C" {
#endif
struct tskTaskControlBlock;
typedef struct tskTaskControlBlock* TaskHandle_t;
typedef void (*TaskFunction_t)(void*);
typedef enum { eRunning = 0, eReady, eBlocked, eSuspended, eDeleted, eInvalid } eTaskState;
#define tskIDLE_PRIORITY ((UBaseType_t)0U)
BaseType_t xTaskCreate(TaskFunction_t fn, const char* name, configSTACK_DEPTH_TYPE depth, void* arg, UBaseType_t prio, TaskHandle_t* out);
void vTaskDelete(TaskHandle_t t);
void vTaskDelay(TickType_t ticks);
void vTaskSuspend(TaskHandle_t t);
void vTaskResume(TaskHandle_t t);
eTaskState eTaskGetState(TaskHandle_t t);
TaskHandle_t xTaskGetCurrentTaskHandle(void);
TickType_t xTaskGetTickCount(void);
TickType_t xTaskGetTickCountFromISR(void);
BaseType_t xTaskNotifyGive(TaskHandle_t t);
void vTaskNotifyGiveFromISR(TaskHandle_t t, BaseType_t* woken);
uint32_t ulTaskNotifyTake(BaseType_t clear, TickType_t ticks);
void simEnterCritical(void);
void simExitCritical(void);
UBaseType_t simEnterCriticalIsr(void);
void simExitCriticalIsr(UBaseType_t s);
#define taskENTER_CRITICAL() simEnterCritical()
#define taskEXIT_CRITICAL() simExitCritical()
#define taskENTER_CRITICAL_FROM_ISR() simEnterCriticalIsr()
#define taskEXIT_CRITICAL_FROM_ISR(x) simExitCriticalIsr(x)
#define taskYIELD() vTaskDelay(0)
#ifdef __cplusplus
}
#endif

#pragma once
#include "task.h"
#ifdef __cplusplus
extern "C" {
#endif
struct tmrTimerControl;
typedef struct tmrTimerControl* TimerHandle_t;
typedef void (*TimerCallbackFunction_t)(TimerHandle_t);
typedef void (*PendedFunction_t)(void*, uint32_t);
TimerHandle_t xTimerCreate(const char* name, TickType_t period, UBaseType_t reload, void* id, TimerCallbackFunction_t cb);
BaseType_t simTimerCommand(TimerHandle_t t, int cmd, TickType_t value, TickType_t wait);
#define xTimerStart(t, w) simTimerCommand((t), 1, xTaskGetTickCount(), (w))
#define xTimerReset(t, w) simTimerCommand((t), 1, xTaskGetTickCount(), (w))
#define xTimerStop(t, w) simTimerCommand((t), 2, 0U, (w))
#define xTimerChangePeriod(t, p, w) simTimerCommand((t), 3, (p), (w))
#define xTimerDelete(t, w) simTimerCommand((t), 4, 0U, (w))
BaseType_t xTimerPendFunctionCall(PendedFunction_t fn, void* a, uint32_t b, TickType_t wait);
TickType_t xTimerGetPeriod(TimerHandle_t t);
TickType_t xTimerGetExpiryTime(TimerHandle_t t);
BaseType_t xTimerIsTimerActive(TimerHandle_t t);
void vTimerSetReloadMode(TimerHandle_t t, UBaseType_t reload);
void* pvTimerGetTimerID(TimerHandle_t t);
void vTimerSetTimerID(TimerHandle_t t, void* id);
TaskHandle_t xTimerGetTimerDaemonTaskHandle(void);
#ifdef __cplusplus
}
#endif

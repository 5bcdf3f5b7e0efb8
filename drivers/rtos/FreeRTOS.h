/* stand-in for the FreeRTOS API: declarations; the kernel behind them is in kernel.h */
#ifndef VF_FREERTOS_H
#define VF_FREERTOS_H
#include <stdint.h>
#include <stddef.h>
#include <limits.h>
#ifdef __cplusplus
extern "C" {
#endif
#define tskKERNEL_VERSION_MAJOR 10
#define tskKERNEL_VERSION_MINOR 4
#define tskKERNEL_VERSION_BUILD 3
#define configTICK_RATE_HZ 100
#define portTICK_PERIOD_MS 10
#define configSUPPORT_STATIC_ALLOCATION 1
#define configSUPPORT_DYNAMIC_ALLOCATION 1
#define configUSE_TASK_NOTIFICATIONS 1
#define configUSE_TRACE_FACILITY 0
#define configUSE_APPLICATION_TASK_TAG 0
#define configQUEUE_REGISTRY_SIZE 0
#define portUSING_MPU_WRAPPERS 0
#define configSTACK_DEPTH_TYPE uint16_t
#define portMAX_DELAY 0xffffffffUL
#define pdTRUE 1
#define pdFALSE 0
#define pdPASS 1
#define pdFAIL 0
typedef long BaseType_t;
typedef unsigned long UBaseType_t;
typedef uint32_t TickType_t;
typedef unsigned long StackType_t;
#define portSTACK_TYPE StackType_t
typedef struct { uint64_t raw[12]; } vf_static;
typedef vf_static StaticSemaphore_t, StaticQueue_t, StaticTimer_t, StaticEventGroup_t, StaticTask_t;
typedef struct vf_queue* QueueHandle_t;
typedef QueueHandle_t SemaphoreHandle_t;
typedef struct vf_task* TaskHandle_t;
typedef struct vf_timer* TimerHandle_t;
typedef struct vf_group* EventGroupHandle_t;
typedef TickType_t EventBits_t;
typedef void (*TaskFunction_t)(void*);
typedef void (*TimerCallbackFunction_t)(TimerHandle_t);
typedef void (*PendedFunction_t)(void*, uint32_t);
typedef enum { eNoAction = 0, eSetBits, eIncrement, eSetValueWithOverwrite, eSetValueWithoutOverwrite } eNotifyAction;
typedef enum { eRunning = 0, eReady, eBlocked, eSuspended, eDeleted, eInvalid } eTaskState;
/* semaphores */
SemaphoreHandle_t xSemaphoreCreateBinary(void);
SemaphoreHandle_t xSemaphoreCreateBinaryStatic(StaticSemaphore_t*);
SemaphoreHandle_t xSemaphoreCreateCounting(UBaseType_t max, UBaseType_t initial);
SemaphoreHandle_t xSemaphoreCreateCountingStatic(UBaseType_t max, UBaseType_t initial, StaticSemaphore_t*);
SemaphoreHandle_t xSemaphoreCreateMutex(void);
SemaphoreHandle_t xSemaphoreCreateMutexStatic(StaticSemaphore_t*);
SemaphoreHandle_t xSemaphoreCreateRecursiveMutex(void);
SemaphoreHandle_t xSemaphoreCreateRecursiveMutexStatic(StaticSemaphore_t*);
void vSemaphoreDelete(SemaphoreHandle_t);
BaseType_t xSemaphoreTake(SemaphoreHandle_t, TickType_t);
BaseType_t xSemaphoreGive(SemaphoreHandle_t);
BaseType_t xSemaphoreTakeRecursive(SemaphoreHandle_t, TickType_t);
BaseType_t xSemaphoreGiveRecursive(SemaphoreHandle_t);
BaseType_t xSemaphoreTakeFromISR(SemaphoreHandle_t, BaseType_t*);
BaseType_t xSemaphoreGiveFromISR(SemaphoreHandle_t, BaseType_t*);
UBaseType_t uxSemaphoreGetCount(SemaphoreHandle_t);
TaskHandle_t xSemaphoreGetMutexHolder(SemaphoreHandle_t);
/* queues */
QueueHandle_t xQueueCreate(UBaseType_t length, UBaseType_t size);
QueueHandle_t xQueueCreateStatic(UBaseType_t length, UBaseType_t size, uint8_t* storage, StaticQueue_t*);
void vQueueDelete(QueueHandle_t);
UBaseType_t uxQueueMessagesWaiting(QueueHandle_t);
UBaseType_t uxQueueSpacesAvailable(QueueHandle_t);
BaseType_t xQueueSend(QueueHandle_t, const void*, TickType_t);
BaseType_t xQueueSendToBack(QueueHandle_t, const void*, TickType_t);
BaseType_t xQueueSendFromISR(QueueHandle_t, const void*, BaseType_t*);
BaseType_t xQueueOverwrite(QueueHandle_t, const void*);
BaseType_t xQueueOverwriteFromISR(QueueHandle_t, const void*, BaseType_t*);
BaseType_t xQueueReceive(QueueHandle_t, void*, TickType_t);
BaseType_t xQueuePeek(QueueHandle_t, void*, TickType_t);
BaseType_t xQueuePeekFromISR(QueueHandle_t, void*);
BaseType_t xQueueReset(QueueHandle_t);
BaseType_t xQueueGetStaticBuffers(QueueHandle_t, uint8_t**, StaticQueue_t**);
/* event groups */
EventGroupHandle_t xEventGroupCreate(void);
EventGroupHandle_t xEventGroupCreateStatic(StaticEventGroup_t*);
void vEventGroupDelete(EventGroupHandle_t);
EventBits_t xEventGroupWaitBits(EventGroupHandle_t, EventBits_t, BaseType_t clear, BaseType_t all, TickType_t);
EventBits_t xEventGroupSetBits(EventGroupHandle_t, EventBits_t);
EventBits_t xEventGroupClearBits(EventGroupHandle_t, EventBits_t);
BaseType_t xEventGroupSetBitsFromISR(EventGroupHandle_t, EventBits_t, BaseType_t*);
BaseType_t xEventGroupClearBitsFromISR(EventGroupHandle_t, EventBits_t);
EventBits_t xEventGroupSync(EventGroupHandle_t, EventBits_t set, EventBits_t wait, TickType_t);
/* timers */
TimerHandle_t xTimerCreate(const char*, TickType_t, UBaseType_t reload, void* id, TimerCallbackFunction_t);
TimerHandle_t xTimerCreateStatic(const char*, TickType_t, UBaseType_t reload, void* id, TimerCallbackFunction_t, StaticTimer_t*);
BaseType_t xTimerDelete(TimerHandle_t, TickType_t);
BaseType_t xTimerStart(TimerHandle_t, TickType_t);
BaseType_t xTimerStop(TimerHandle_t, TickType_t);
BaseType_t xTimerReset(TimerHandle_t, TickType_t);
BaseType_t xTimerChangePeriod(TimerHandle_t, TickType_t, TickType_t);
BaseType_t xTimerStartFromISR(TimerHandle_t, BaseType_t*);
BaseType_t xTimerStopFromISR(TimerHandle_t, BaseType_t*);
BaseType_t xTimerResetFromISR(TimerHandle_t, BaseType_t*);
void vTimerSetTimerID(TimerHandle_t, void*);
void* pvTimerGetTimerID(TimerHandle_t);
const char* pcTimerGetName(TimerHandle_t);
TickType_t xTimerGetExpiryTime(TimerHandle_t);
TickType_t xTimerGetPeriod(TimerHandle_t);
BaseType_t xTimerIsTimerActive(TimerHandle_t);
BaseType_t xTimerPendFunctionCall(PendedFunction_t, void*, uint32_t, TickType_t);
BaseType_t xTimerPendFunctionCallFromISR(PendedFunction_t, void*, uint32_t, BaseType_t*);
/* tasks */
TickType_t xTaskGetTickCount(void);
void vTaskDelay(TickType_t);
void taskYIELD(void);
TaskHandle_t xTaskGetCurrentTaskHandle(void);
BaseType_t xTaskCreate(TaskFunction_t, const char*, configSTACK_DEPTH_TYPE, void*, UBaseType_t, TaskHandle_t*);
TaskHandle_t xTaskCreateStatic(TaskFunction_t, const char*, uint32_t, void*, UBaseType_t, StackType_t*, StaticTask_t*);
void vTaskDelete(TaskHandle_t);
void vTaskSuspend(TaskHandle_t);
void vTaskResume(TaskHandle_t);
eTaskState eTaskGetState(TaskHandle_t);
char* pcTaskGetName(TaskHandle_t);
BaseType_t xTaskNotifyGive(TaskHandle_t);
BaseType_t xTaskNotifyGiveIndexed(TaskHandle_t, UBaseType_t);
void vTaskNotifyGiveFromISR(TaskHandle_t, BaseType_t*);
BaseType_t xTaskNotify(TaskHandle_t, uint32_t, eNotifyAction);
BaseType_t xTaskNotifyFromISR(TaskHandle_t, uint32_t, eNotifyAction, BaseType_t*);
uint32_t ulTaskNotifyValueClear(TaskHandle_t, uint32_t);
BaseType_t xTaskNotifyStateClear(TaskHandle_t);
#ifdef __cplusplus
}
#endif
#endif

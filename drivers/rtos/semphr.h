#include "FreeRTOS.h"

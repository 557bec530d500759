// The part of the Arduino core that the library uses, on the simulated board (sim/backend_arduino.cpp)
#pragma once
#include <cstddef>
#include <cstdint>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
extern "C" {
unsigned long millis(void);
void noInterrupts(void);
void interrupts(void);
}
#define F(s) (s)
struct SerialStub {
    void println(const char*) {}
};
static SerialStub Serial;

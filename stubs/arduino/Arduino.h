// The part of the Arduino core the library uses, as declarations: what it does is up to the witness.
#pragma once
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <math.h>

#define HIGH 0x1
#define LOW 0x0
#define INPUT 0x0
#define OUTPUT 0x1
#define INPUT_PULLUP 0x2
#define CHANGE 1
#define FALLING 2
#define RISING 3
#define DEFAULT 1
#define EXTERNAL 0
#define SERIAL 0x0
#define NOT_AN_INTERRUPT -1
#define LED_BUILTIN 13
#define LSBFIRST 0
#define MSBFIRST 1
#define PI 3.1415926535897932384626433832795
#define HALF_PI 1.5707963267948966192313216916398
#define TWO_PI 6.283185307179586476925286766559

typedef bool boolean;
typedef uint8_t byte;
typedef unsigned int word;
typedef uint8_t pin_size_t;

extern "C" {
void pinMode(uint8_t pin, uint8_t mode);
void digitalWrite(uint8_t pin, uint8_t value);
int digitalRead(uint8_t pin);
int analogRead(uint8_t pin);
void analogWrite(uint8_t pin, int value);
void analogWriteResolution(int bits);
unsigned long millis(void);
unsigned long micros(void);
void delay(unsigned long ms);
void delayMicroseconds(unsigned int us);
int digitalPinToInterrupt(uint8_t pin);
void attachInterrupt(uint8_t interrupt, void (*callback)(void), int mode);
void detachInterrupt(uint8_t interrupt);
void noInterrupts(void);
void interrupts(void);
void analogReadResolution(int bits);
void yield(void);
}

class Print {
public:
    virtual size_t write(uint8_t) = 0;
    virtual size_t write(const uint8_t* buffer, size_t size) = 0;
    virtual void flush() {}
    size_t print(const char*);
    size_t println(const char*);
};
class Stream : public Print {
public:
    virtual int available() = 0;
    virtual int read() = 0;
    void setTimeout(unsigned long ms);
    size_t readBytes(uint8_t* buffer, size_t length);
};
class HardwareSerial : public Stream {
public:
    void begin(unsigned long baud);
    int available() override;
    int read() override;
    int availableForWrite();
    void flush() override;
    size_t write(uint8_t) override;
    size_t write(const uint8_t* buffer, size_t size) override;
};
extern HardwareSerial Serial;

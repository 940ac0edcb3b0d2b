// Dates and times: what the fields are made of, and what becomes of them. The C library's calendar is a stand-in that
// records what it is given.
#include "vf.h"
#include "spine/structure/time/datetime.hpp"
#include <ctime>

static int asked, converted, formatted;
static struct tm given, made;
static time_t answer, told;
static char* out_buffer;
static size_t out_size, out_length;
static const char* out_format;

static bool same(const struct tm& a, const struct tm& b) {
    return a.tm_sec == b.tm_sec && a.tm_min == b.tm_min && a.tm_hour == b.tm_hour && a.tm_mday == b.tm_mday && a.tm_mon == b.tm_mon &&
           a.tm_year == b.tm_year && a.tm_wday == b.tm_wday && a.tm_yday == b.tm_yday && a.tm_isdst == b.tm_isdst;
}
static struct tm any_tm() {
    struct tm t {};
    int* f[] = {&t.tm_sec, &t.tm_min, &t.tm_hour, &t.tm_mday, &t.tm_mon, &t.tm_year, &t.tm_wday, &t.tm_yday, &t.tm_isdst};
    for (int* x : f) {
        *x = vf_nondet_int();
        vf_assume(*x > -(1 << 20) && *x < (1 << 20));
    }
    return t;
}
extern "C" {
// completes the fields of the calendar time it is given
time_t mktime(struct tm* t) {
    ++asked;
    given = *t;
    made = any_tm();
    *t = made;
    return answer;
}
struct tm* gmtime_r(const time_t* t, struct tm* result) {
    ++converted;
    told = *t;
    made = any_tm();
    *result = made;
    return result;
}
size_t strftime(char* buffer, size_t size, const char* format, const struct tm* t) {
    ++formatted;
    out_buffer = buffer;
    out_size = size;
    out_format = format;
    given = *t;
    return out_length;
}
}
static void start() {
    asked = converted = formatted = 0;
    answer = vf_nondet_long();
    vf_assume(answer > -(1l << 50) && answer < (1l << 50));
    out_length = vf_nondet_size();
}
static void fields(DateTime& d) {
    vf_check(d.getYear() == made.tm_year + 1900 && d.getMonth() == made.tm_mon + 1 && d.getDay() == made.tm_mday, "the date is the one the calendar determined");
    vf_check(d.getHour() == made.tm_hour && d.getMinute() == made.tm_min && d.getSecond() == made.tm_sec, "the time is the one the calendar determined");
    vf_check(d.getWeekDay() == made.tm_wday && d.getYearDay() == made.tm_yday && d.getDST() == made.tm_isdst, "day of the week and of the year and daylight saving are those the calendar determined");
    char room[8];
    const size_t n = vf_nondet_size();
    const char format[] = "%T";
    const struct tm was = made;
    vf_check(d.strf_DateTime(room, n, format) == out_length && formatted == 1 && out_buffer == room && out_size == n && out_format == format, "formatting is left to strftime, with the buffer and format it is given");
    vf_check(same(given, was), "what is formatted is the date and time");
}
static constexpr long TO_2000 = 946684800; // seconds from 1970 to 2000

// seconds since 1970
extern "C" void vp_datetime_timestamp() {
    vf_option("split", 4096);
    start();
    const long t = vf_nondet_long();
    vf_assume(t > -(1l << 50) && t < (1l << 50));
    DateTime d(t);
    vf_check(converted == 1 && asked == 0 && told == t, "the fields of a timestamp are those of UTC");
    vf_check(d.getUnixTime() == t, "a timestamp is kept");
    vf_check(d.getY2kTime() == t - TO_2000, "the time since 2000 is 946684800 seconds less than that since 1970");
    fields(d);
}
extern "C" void vp_datetime_default() {
    start();
    DateTime d;
    vf_check(converted == 1 && told == 0 && d.getUnixTime() == 0 && d.getY2kTime() == -TO_2000, "without arguments it is 1970");
    DateTime e = d;
    vf_check(e.getUnixTime() == 0 && e.getYear() == d.getYear() && e.getSecond() == d.getSecond(), "a copy is the same date and time");
}
// fields
extern "C" void vp_datetime_fields() {
    vf_option("split", 4096);
    start();
    int v[9];
    for (int i = 0; i < 9; ++i) {
        v[i] = vf_nondet_int();
        vf_assume(v[i] > -(1 << 20) && v[i] < (1 << 20));
    }
    const int n = vf_choose(3);
    DateTime d = n == 0 ? DateTime(v[0], v[1], v[2]) : n == 1 ? DateTime(v[0], v[1], v[2], v[3], v[4], v[5]) : DateTime(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8]);
    vf_check(asked == 1 && converted == 0, "the calendar is asked once");
    vf_check(given.tm_year == v[0] - 1900 && given.tm_mon == v[1] - 1 && given.tm_mday == v[2], "the calendar is told the date");
    if (n == 0) vf_check(given.tm_hour == 0 && given.tm_min == 0 && given.tm_sec == 0, "a date without time is midnight");
    else vf_check(given.tm_hour == v[3] && given.tm_min == v[4] && given.tm_sec == v[5], "the calendar is told the time");
    if (n == 2) vf_check(given.tm_isdst == v[8], "the calendar is told about daylight saving");
    else vf_check(given.tm_isdst < 0, "the calendar finds out about daylight saving when it is not told");
    vf_check(d.getUnixTime() == answer && d.getY2kTime() == answer - TO_2000, "the timestamps are what the calendar makes of it");
    fields(d);
}
// the texts of __DATE__ and __TIME__
static char digit() {
    const char c = vf_nondet_char();
    vf_assume(c >= '0' && c <= '9');
    return c;
}
static void texts(int month) {
    vf_option("split", 65536);
    start();
    const char* names = "JanFebMarAprMayJunJulAugSepOctNovDec";
    char date[12], time[9];
    for (int i = 0; i < 3; ++i) date[i] = names[3 * month + i];
    date[3] = ' ';
    const int tens = vf_choose(4);
    date[4] = tens ? '0' + tens : ' ';
    date[5] = digit();
    vf_assume(tens || date[5] != '0');
    date[6] = ' ';
    for (int i = 7; i < 11; ++i) date[i] = digit();
    vf_assume(date[7] >= '1');
    date[11] = 0;
    for (int i = 0; i < 8; ++i) time[i] = i == 2 || i == 5 ? ':' : digit();
    time[8] = 0;
    const int day = 10 * tens + (date[5] - '0'), year = 1000 * (date[7] - '0') + 100 * (date[8] - '0') + 10 * (date[9] - '0') + (date[10] - '0');
    DateTime d(date, time);
    vf_check(asked == 1 && converted == 0, "the calendar is asked once");
    vf_check(given.tm_mon == month, "the month is the one named");
    vf_check(given.tm_mday == day, "the day is that of the text");
    vf_check(given.tm_year == year - 1900, "the year is that of the text");
    vf_check(given.tm_hour == 10 * (time[0] - '0') + (time[1] - '0') && given.tm_min == 10 * (time[3] - '0') + (time[4] - '0') && given.tm_sec == 10 * (time[6] - '0') + (time[7] - '0'), "hours, minutes and seconds are the decimal numbers of the text");
    vf_check(given.tm_isdst < 0, "the calendar finds out about daylight saving");
    vf_check(d.getUnixTime() == answer && d.getY2kTime() == answer - TO_2000, "the timestamps are what the calendar makes of it");
    fields(d);
}
extern "C" void vp_datetime_text_jan() { texts(0); }
extern "C" void vp_datetime_text_feb() { texts(1); }
extern "C" void vp_datetime_text_mar() { texts(2); }
extern "C" void vp_datetime_text_apr() { texts(3); }
extern "C" void vp_datetime_text_may() { texts(4); }
extern "C" void vp_datetime_text_jun() { texts(5); }
extern "C" void vp_datetime_text_jul() { texts(6); }
extern "C" void vp_datetime_text_aug() { texts(7); }
extern "C" void vp_datetime_text_sep() { texts(8); }
extern "C" void vp_datetime_text_oct() { texts(9); }
extern "C" void vp_datetime_text_nov() { texts(10); }
extern "C" void vp_datetime_text_dec() { texts(11); }

# What decides each property: witnesses for the abstract interpreter (absint), type-level witnesses (types), AST/CFG rules (lint).
EXC = "spine/core/exception.cpp"
LINE = "spine/structure/linebuffer.cpp"
BUF = "spine/io/stream/buffered_stream.cpp"

EVS = [EXC, "spine/eventsystem/pipeline.cpp", "spine/structure/time/timers.cpp", "spine/platform/implementations/mock.cpp"]

MOCK = [EXC, "spine/platform/implementations/mock.cpp"]

PID = MOCK + ["spine/structure/time/timers.cpp", "spine/controller/pid.cpp", "spine/controller/implementations/pid/pid_controller.cpp",
             "spine/controller/implementations/pid/pid_tuner.cpp"]

ABS = ("Abstract interpretation of the unoptimised LLVM IR of /repo's current source under a most-general client: every obligation "
       "and every memory access of the repository's code must hold on every abstract path (memory: in bounds, live object, right "
       "deallocator; loops by fixpoint with affine equalities and difference bounds). ")

import os
_STUBS = os.path.join(os.path.dirname(os.path.abspath(__file__)), "stubs")
ARDUINO = ["-UNATIVE", "-DARDUINO=10800", "-D__arm__", "-I" + os.path.join(_STUBS, "arduino")]
ZEPHYR = ["-UNATIVE", "-DZEPHYR", "-DCONFIG_LOG_RUNTIME_FILTERING", "-I" + os.path.join(_STUBS, "zephyr")]
SPECS = {
    "C01": dict(
        rule=ABS + "Client: any capacity 1..2^32, any history of ring buffer operations with any arguments; obligations compare the observers before and after each operation.",
        absint=[dict(witness="ring.cpp", repo=[EXC])]),
    "C02": dict(
        rule=ABS + "Client: any capacity, any history; the element at an arbitrary index is observed before and after each operation.",
        absint=[dict(witness="ring_fifo.cpp", repo=[EXC])]),
    "C03": dict(
        rule=ABS + "Client: any capacity, any history of vector operations with arbitrary indices; size and the element at an arbitrary index before and after each operation. Where elements have to move: every position and fill level of capacities 1 to 7, unknown elements, every index, and all elements compared.",
        absint=[dict(witness="vector.cpp", repo=[EXC])]),
    "C04": dict(
        rule=ABS + "Client: every sequence of two copies, moves, swaps or assignments among containers that own, view or borrow their storage, then destruction; leak, double-free and use-after-free obligations. An element type that checks, in every special member, that it is constructed, taken through arrays, vectors and rings.",
        absint=[dict(witness="ownership.cpp", repo=[EXC])]),
    "C05": dict(
        rule=ABS + "Client: any vector history or any array, then each kind of traversal; the address visited at each step is compared with the indexed element.",
        absint=[dict(witness="iterate.cpp", repo=[EXC])]),
    "C06": dict(
        rule=ABS + "Client: every position, fill level and content (unknown characters) of a line buffer of capacity 2 to 4, then each line operation compared with the characters that were there.",
        absint=[dict(witness="linebuffer.cpp", repo=[EXC, LINE], thorough_only=["vp_linebuffer_4"])],
        assumptions=["capacities 2 to 4 (the ring arithmetic is covered for all capacities by C01 and C02)", "lengths passed back in come from the buffer in the same state"]),
    "C07": dict(
        rule=ABS + "Client: a device whose every call may refuse, fail, deliver or accept, under buffered streams of capacity 1 to 3.",
        absint=[dict(witness="stream.cpp", repo=[EXC, LINE, BUF])],
        assumptions=["buffer capacities 1 to 3, at most five bytes arriving"]),
    "C08": dict(
        rule=ABS + "Client: any bytes queued before and during a transaction, every way of ending it, moved or not.",
        absint=[dict(witness="transaction.cpp", repo=[EXC, LINE, BUF, "spine/io/stream/transaction.cpp"])],
        assumptions=["lines of up to two bytes, output buffer of four bytes", "the output buffer is not flushed and no other transaction is opened on the stream while a transaction is open"]),
    "C09": dict(
        rule=ABS + "Client: any history of acquiring and releasing (fixpoint), every way of populating, removing and destroying, with every object's lifetime counted; leak, double-free and use-after-free obligations. An element type that checks, in every special member, that it is constructed, taken through arrays, vectors and rings.",
        absint=[dict(witness="pool.cpp", repo=[EXC], thorough_only=["vp_pool_sequence_2_long", "vp_pool_sequence_3_longer"])],
        assumptions=["pools of one to three objects, vectors of up to three"]),
    "C10": dict(
        rule=ABS + "Client: arbitrary delays and clock advances between arbitrary pushes and expiries, compared with the times the futures stand for.",
        absint=[dict(witness="pipeline.cpp", repo=EVS)],
        assumptions=["at most three pending futures, six operations", "times below 2^40 ms"]),
    "C11": dict(
        rule=ABS + "Client: handlers that record what they get, scheduled and triggered events with arbitrary data, delays and clock advances, an exhausted store, nested scheduling and triggering.",
        absint=[dict(witness="eventsystem.cpp", repo=EVS + ["spine/eventsystem/eventsystem.cpp"])],
        assumptions=["an event store of two, two handlers, two identities", "event identities within the configured count", "times below 2^40 ms"]),
    "C12": dict(
        rule=ABS + "Client: arbitrary configuration and pending delays; the time that passes in one loop is compared with both bounds.",
        absint=[dict(witness="looptime.cpp", repo=EVS + ["spine/eventsystem/eventsystem.cpp"])],
        assumptions=["at most two pending events", "times below 2^40 ms"]),
    "C13": dict(
        rule=ABS + "Client: arbitrary integers in every pair of kernel time units; each operation is compared with integer arithmetic on the times they stand for.",
        absint=[dict(witness="kerneltime.cpp", repo=[EXC])],
        assumptions=["values whose result fits 62 bits"]),
    "C14": dict(
        rule="Type facts decided by the C++ type checker on programs built against the library: every pair of quantities and every prefixed unit (detection of all constructions, conversions, assignments, arithmetic and comparisons), and programs that must be rejected.",
        types=["units_types.cpp"],
        assumptions=["the quantities enumerated are those declared in structure/units"]),
    "C15": dict(
        rule=ABS + "Client: every named unit and every magnitude prefix converted to its base and back (constants rounded as the machine rounds); any two real values in every operation and comparison across units, in real arithmetic.",
        absint=[dict(witness="units.cpp", repo=[EXC])],
        assumptions=["conversion factors up to a relative error of 1e-5", "rounding of arithmetic on unknown values is left out: operations are compared as real numbers"]),
    "C28": dict(
        rule=ABS + "Client: any numerators over representative denominators, in every operation and comparison across units, in real arithmetic.",
        absint=[dict(witness="compound.cpp", repo=[EXC])],
        assumptions=["denominators 1, 4, 0.5 and -2 in each operand", "rounding is left out: operations are compared as real numbers", "simplifying: eight ratios at three precisions"]),
    "C29": dict(
        rule=ABS + "Client: any history of settings of an output, fades between any two levels by any increment and interval, and the interfaces over arbitrary implementations.",
        absint=[dict(witness="gpio.cpp", repo=MOCK + ["spine/platform/gpio.cpp"])],
        assumptions=["rounding of floats is left out: levels are real numbers"]),
    "C30": dict(
        rule=ABS + "Client: points with any components (floats as real numbers), products and quotients with several literal factors, lengths of literal points that have a rational one.",
        absint=[dict(witness="points.cpp", repo=[])],
        assumptions=["the C library's sqrt and pow are exact where the result is representable"]),
    "C31": dict(
        rule=ABS + "Client: any capacity and history; after it, any sequence of five nested operations. Tuples of any two values.",
        absint=[dict(witness="stack.cpp", repo=[EXC])]),
    "C32": dict(
        rule=ABS + "Client: outputs, inputs, interrupts, serial port, time and console of the Arduino platform on a recording stand-in for the Arduino core (stubs/arduino), for all pins, polarities, levels, bytes and times.",
        absint=[dict(witness="arduino.cpp", repo=[EXC, "spine/core/logging.cpp", "spine/platform/gpio.cpp"], flags=ARDUINO, endless=["vp_arduino_halt"])],
        assumptions=["the Arduino core behaves as its documentation says; resolutions 8, 10 and 12; interrupts numbered like the pins or two less"]),
    "C33": dict(
        rule="For every header under src/spine, decided by the compiler's front end: a program that includes only it (and instantiates the templates it offers) is well-formed, including it twice or before or after the platform is, and its IR has no definition with external linkage.",
        lint=["headers"],
        assumptions=["clang 18 with libstdc++; Arduino and Zephyr headers against stand-ins for their SDKs (stubs/)"]),
    "C34": dict(
        rule=ABS + "Client: time, delays, logging and halting of the Zephyr platform on a recording stand-in for the kernel (stubs/zephyr), for all times and levels.",
        absint=[dict(witness="zephyr.cpp", repo=[EXC, "spine/core/logging.cpp", "spine/platform/implementations/zephyr.cpp"], flags=ZEPHYR)],
        assumptions=["the kernel behaves as its documentation says; delays up to 2*10^9 units"]),
    "C18": dict(
        rule=ABS + "Client: any sequence of delays in both units, and every sequence of four stream operations on mock streams of one or two bytes each way with arbitrary bytes.",
        absint=[dict(witness="clock.cpp", repo=MOCK + ["spine/io/stream/implementations/mock.cpp"])],
        assumptions=["total time below 2^50 us", "mock streams of one or two bytes, four operations"]),
    "C19": dict(
        rule=ABS + "Client: every text of up to four unknown characters in memory of exactly that size; results compared with a character by character reference.",
        absint=[dict(witness="strings.cpp", repo=[EXC, "spine/core/utils/string.cpp"])],
        assumptions=["texts of up to four characters (all character values)", "delimiters: the default, one, none"]),
    "C20": dict(
        rule=ABS + "Client: every content of up to four unknown characters in a string of four to six characters of room; each operation compared with a character by character reference.",
        absint=[dict(witness="staticstring.cpp", repo=[EXC, "spine/structure/static_string.cpp"])],
        assumptions=["texts of up to four characters (all character values)"]),
    "C21": dict(
        rule=ABS + "Client: every text of up to three unknown characters, numbers of up to 26 unknown digits before each unit, and every time printed and read back.",
        absint=[dict(witness="timetext.cpp", repo=[EXC, "spine/core/utils/time_repr.cpp"])],
        assumptions=["printed times are not negative and below 2^40 of their unit"]),
    "C22": dict(
        rule=ABS + "Client: a result in each of its four states with an unknown value, every way of constructing, copying, moving, assigning, chaining and unwrapping it, for three kinds of values, with leak and double-free obligations.",
        absint=[dict(witness="result.cpp", repo=[EXC])],
        assumptions=["match() on a result without any value is not specified"]),
    "C23": dict(
        rule=ABS + "Client: any limits and times, any history of readings and passing of time (fixpoint).",
        absint=[dict(witness="latch.cpp", repo=MOCK + ["spine/structure/time/timers.cpp", "spine/controller/sr_latch.cpp"])],
        assumptions=["configured times and single steps of time up to 2^30 ms, total time up to 2^50 us"]),
    "C26": dict(
        rule=ABS + "Client: any intervals and delays, any history of passing of time, polls and resets (fixpoint).",
        absint=[dict(witness="timers.cpp", repo=MOCK + ["spine/structure/time/timers.cpp"])],
        assumptions=["intervals and single steps of time up to 2^30 ms, total time up to 2^50 us"]),
    "C27": dict(
        rule=ABS + "Client: up to three blocks with any starts, lengths and values, in any order, overlapping or not, queried at any second of the day.",
        absint=[dict(witness="schedule.cpp", repo=MOCK + ["spine/structure/time/schedule.cpp"])],
        assumptions=["one to three blocks within a day, together not longer than a day"]),
    "C16": dict(
        rule=ABS + "Client: any level, any text of up to 16 characters against a buffer of 32, and formatted arguments of any length against the buffers as configured.",
        absint=[dict(witness="logging.cpp", repo=MOCK)],
        assumptions=["ASCII text", "a message buffer of 32 bytes where content is compared; the C library's snprintf behaves as specified"]),
    "C17": dict(
        rule=ABS + "Client: every way of setting, replacing and removing handlers, then an exception of each kind.",
        absint=[dict(witness="exceptions.cpp", repo=[EXC])],
        assumptions=["the platform's halt and the log are stand-ins that record the call"]),
    "C24": dict(
        rule=ABS + "Client: any history of readings, setpoints, tunings and passing of time (fixpoint) compared with the textbook controller in real arithmetic; the response against its limits with unknown gains; copies; the tuner and its loop against arbitrary processes.",
        absint=[dict(witness="pid.cpp", repo=PID)],
        assumptions=["real arithmetic where the response is compared with the textbook (rounding aside), with gains and sampling intervals from literals", "no NaN", "the first reading comes at least an interval after construction", "tuning within limits that include zero"]),
    "C25": dict(
        rule=ABS + "Client: any history of samples and resets (fixpoint) through each filter, and stacks of up to three arbitrary filters with one detached, compared with what each filter is documented to do.",
        absint=[dict(witness="filters.cpp", repo=[EXC])],
        assumptions=["real arithmetic (rounding aside)", "no NaN", "limits of ranges and widths of bands and averages from literals", "rejection limits of at least one"]),
}

SPECS["C36"] = dict(
    rule="For every source file and header of the library (and the templates the witnesses and header programs instantiate), on each platform, with and without debugging: the compiler's format checker finds that every printf-style text passed to the log or to the C library asks for exactly the values it is given, in their types.",
    lint=["formats"],
    assumptions=["the sizes of types on x86-64; Arduino and Zephyr code against stand-ins for their SDKs (stubs/)"])
SPECS["C37"] = dict(
    rule=ABS + "Client: pipelines of no, one, two and three futures at any time, with and without debugging; the text compared with the times until the futures.",
    absint=[dict(witness="pipelinetext.cpp", repo=EVS + ["spine/eventsystem/eventsystem.cpp", "spine/core/utils/time_repr.cpp"], flags=f, debug=False, limit=100) for f in ([], ["-DDEBUG_SPINE"])],
    assumptions=["delays from literals, at any time up to 2^40 ms", "no time passes while a pipeline is printed"])
SPECS["C38"] = dict(
    rule=ABS + "Client: any timestamp, any fields, and every text of the form of __DATE__ and __TIME__ (unknown digits, each month), with a calendar that records what it is given and answers anything.",
    absint=[dict(witness="datetime.cpp", repo=[EXC, "spine/structure/time/datetime.cpp"])],
    assumptions=["the C library's calendar functions behave as specified: gmtime_r and mktime determine the fields, strftime the text", "timestamps below 2^50 s"])

SPECS["C42"] = dict(
    rule="At compile time, facts the type checker decides on joined literals. At any time: " + ABS + "Client: texts of unknown characters in combinations of lengths 0 to 4, joined in ones, twos and threes and again; indices of any enumerator.",
    absint=[dict(witness="concatenate.cpp", repo=[EXC])],
    types=["concatenate_types.cpp"],
    assumptions=["texts without a terminator inside"])
SPECS["C43"] = dict(
    rule="The type checker decides, for every list of up to four types out of three, what the list without repetitions and the variant of it is. Values in wrappers: " + ABS,
    absint=[dict(witness="uniquevariant.cpp", repo=[EXC])],
    types=["uniquevariant_types.cpp"],
    assumptions=["lists of up to four types out of three"])
SPECS["C44"] = dict(
    rule=ABS + "Client: a stream that records what it is told and answers anything, used through its base; a port that is given statuses at any time.",
    absint=[dict(witness="streamtext.cpp", repo=[EXC])],
    assumptions=["a char is eight bits"])

SPECS["C45"] = dict(
    rule=ABS + "Client: arrays of three types of elements made in every way, at any capacity and an arbitrary index, and every element for one to three of them.",
    absint=[dict(witness="array.cpp", repo=[EXC])],
    assumptions=["trivially copyable elements", "buffers aligned for the elements", "memory can be allocated"])

# C35: the witnesses of the other properties once more, as a debug build, in which only what is legal is done.
_OTHER = {"C16", "C17"}  # these bring handlers of their own


def _debug(spec):
    for w in spec["absint"]:
        if w.get("flags") or not w.get("debug", True):
            continue
        d = dict(w)
        d.update(flags=["-DDEBUG_SPINE", "-DVF_ASSERTIONS"], only=["no assertion fails on legal use"], vacuity=False)
        d.pop("min_functions", None)
        yield d


SPECS["C35"] = dict(
    rule=ABS + "Client: the clients of the other properties in a debug build (DEBUG_SPINE), restricted to legal use, with an exception handler that no assertion may reach.",
    absint=[dict(witness="debug.cpp", repo=EVS + PID[3:] + ["spine/eventsystem/eventsystem.cpp", LINE, BUF, "spine/io/stream/transaction.cpp", "spine/structure/time/schedule.cpp"],
                 flags=["-DDEBUG_SPINE"], ends=False)]
    + [d for p, s in sorted(SPECS.items()) if p not in _OTHER and s.get("absint") for d in _debug(s)],
    assumptions=["what is legal: adding only where there is room, taking only where there is something, indices of elements that exist"])

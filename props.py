# The catalogue of properties. gen.py turns it into properties.jsonl and MANIFEST.json.
# P(id, title, statement, over, text, why, files, mechanism, state=[], observe=[])
PROPS = []


def P(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                      anchors=dict(files=["src/spine/" + f for f in files],
                                   mechanism=[dict(name=n, where="src/spine/" + w) for n, w in mechanism],
                                   state=[dict(name=n, meaning=m, where="src/spine/" + w) for n, m, w in state],
                                   observe_at=list(observe), hook_needed=None), na=na))


_UNITS = ["structure/units/absorbed_dose.hpp", "structure/units/amount_of_substance.hpp", "structure/units/capacitance.hpp", "structure/units/catalytic_activity.hpp", "structure/units/charge.hpp", "structure/units/conductance.hpp", "structure/units/current.hpp", "structure/units/dose_equivalent.hpp", "structure/units/energy.hpp", "structure/units/force.hpp", "structure/units/frequency.hpp", "structure/units/illuminance.hpp", "structure/units/inductance.hpp", "structure/units/length.hpp", "structure/units/luminous_flux.hpp", "structure/units/magnetic_flux.hpp", "structure/units/magnetic_flux_density.hpp", "structure/units/mass.hpp", "structure/units/potential.hpp", "structure/units/power.hpp", "structure/units/pressure.hpp", "structure/units/radioactivity.hpp", "structure/units/resistance.hpp", "structure/units/temperature.hpp", "structure/units/time.hpp", "structure/units/volume.hpp"]

P("C01", "Ring buffer accounting",
  "For every capacity and every history of operations, a ring buffer never reports more used elements than its capacity, used plus free space is the capacity, and empty and full agree with those counts. "
  "A push adds one element or, when full, overwrites the oldest and adds one to the overrun count, which begins anew when an element is taken; a push that must not overrun leaves a full buffer unchanged and reports failure; pops and drops remove exactly the elements that are there and never make a count wrap. "
  "No operation reads or writes outside the storage.",
  ["histories", "inputs"], "all capacities from 1 to 2^32, all finite histories of public operations with arbitrary arguments",
  "The tests run a handful of fixed scripts at capacities up to about ten; wrap-around, overruns and drops combine in histories they do not enumerate.",
  ["structure/ringbuffer.hpp"], [("push/pop/drop", "structure/ringbuffer.hpp"), ("used_space/free_space/overrun_space", "structure/ringbuffer.hpp")],
  [("m_head,m_tail,m_head_rollover", "read and write position and whether the writer lapped", "structure/ringbuffer.hpp")], ["used_space", "free_space", "empty", "full", "overrun_space"])

P("C02", "Ring buffer is first-in first-out",
  "For every capacity and history, the elements a ring buffer holds are the most recently pushed ones that were not popped or dropped, in the order they were pushed. "
  "Popping yields the oldest, peeking and indexed peeking show them oldest first without changing anything, dropping the newest removes the most recent pushes, and every operation keeps the order of the elements it does not remove.",
  ["histories", "inputs"], "all capacities from 1 to 2^32, all histories, the element at an arbitrary index",
  "The tests compare a few literal sequences; order after a wrap-around at an arbitrary position is a statement over histories.",
  ["structure/ringbuffer.hpp"], [("push/pop/peek", "structure/ringbuffer.hpp")], [], ["pop", "peek", "peek(index)"])

P("C03", "Vector is a bounded sequence",
  "A vector with a fixed capacity holds between zero and that many elements in sequence order: pushing, inserting, popping and removing at either end or in the middle changes the size by exactly one and keeps the order and values of all other elements. "
  "Inserting into a full vector changes nothing, popping from an empty one or clearing leaves it empty, and no call, with any index, touches memory outside the storage.",
  ["histories", "inputs"], "all capacities from 1 to 2^32, all histories of public operations with arbitrary indices, the element at an arbitrary index, for trivially copyable element types; where elements have to move within the storage, capacities 1 to 7 with every position, fill level and index",
  "The tests use short fixed sequences; the interplay of a shifted start (after popping at the front) with inserts, removals and a full vector is not enumerated.",
  ["structure/vector.hpp", "structure/array.hpp"], [("push/pop/insert/remove/rearrange", "structure/vector.hpp")],
  [("m_head,m_tail", "first element and one past the last element", "structure/vector.hpp")], ["size", "operator[]", "at", "front", "back"])

P("C04", "Element storage is owned once",
  "Arrays and vectors either own their element storage or view storage that someone else owns. "
  "Through every sequence of copies, moves, swaps and assignments, owned storage is released exactly once and not while its owner lives, viewed or caller-provided memory is never released, a copy or view refers to the elements of its source, "
  "a move or swap hands over the elements and all counts and leaves a moved-from container empty, and an object never touches storage that was released. "
  "In storage that a container owns, an element is constructed before it is assigned to or read, is moved as its type moves (not byte by byte), and is destroyed exactly once.",
  ["histories", "inputs"], "all capacities from 1 to 2^32, all sequences of two operations (copy, move, swap, list assignment, construction from another) among an owner, a view and a container over caller memory, while the owner of what they view is alive",
  "A double release, a leak or an element that was never made needs a particular sequence of operations or type of element, and the tests pass with or without it unless the allocator happens to notice.",
  ["structure/array.hpp", "structure/vector.hpp", "structure/ringbuffer.hpp"], [("copy, move, swap, destructor", "structure/array.hpp"), ("swap", "structure/vector.hpp")],
  [("_data,_data_owned", "storage and whether to release it", "structure/array.hpp")], ["data", "size", "max_size", "destruction"])

P("C05", "Traversal visits every element once in order",
  "Iterating over an array or a vector, forwards or backwards, mutable or constant, with prefix or postfix increments or a range loop, visits exactly its current elements, each once, in sequence order (or its reverse), whatever history led to the container's state. "
  "A postfix increment or decrement yields the position before the step, and decrementing undoes incrementing.",
  ["histories", "inputs"], "all capacities from 1 to 2^32, all vector histories, all traversals",
  "The tests iterate over freshly filled containers; a vector whose start moved, an empty one, or a less used iterator kind is not sampled.",
  ["structure/array.hpp", "structure/vector.hpp"], [("iterators", "structure/array.hpp"), ("begin/end", "structure/vector.hpp")], [], ["begin/end", "cbegin/cend", "rbegin/rend", "crbegin/crend"])

P("C06", "Lines in a line buffer",
  "A line buffer reports a line exactly when one of its delimiters is among the characters it holds; the next line is the characters up to the first delimiter. "
  "Viewing it shows exactly these characters and consumes nothing, reading copies them with a terminator and consumes the line and its delimiter only, or, when the line does not fit the room given, reads and consumes nothing; dropping consumes the line and its delimiter only. "
  "This holds wherever the line lies in the ring, including across its end, and no operation touches memory outside the buffer or the room given; pushing text stops when the buffer is full.",
  ["inputs", "histories"], "all contents, all positions in the ring, all fill levels at capacities 2 to 4, the default and a custom delimiter set, with and without a remembered line length",
  "Lines that wrap around the end of the ring, fill it completely, or leave no gap to rotate in are particular alignments that the tests' text samples do not reach.",
  ["structure/linebuffer.cpp", "structure/linebuffer.hpp", "structure/ringbuffer.hpp"], [("get_next_line_view", "structure/linebuffer.cpp"), ("get_next_line", "structure/linebuffer.cpp"), ("drop_next_line", "structure/linebuffer.cpp")],
  [("_line_delimiters", "characters that end a line", "structure/linebuffer.hpp")], ["has_line", "get_next_line", "get_next_line_view", "drop_next_line", "used_space"])

P("C07", "Buffered streams lose and reorder nothing",
  "Whatever the underlying stream does on each call (nothing available, a failed read, a refused write), a buffered stream sends every byte that was accepted for writing exactly once and in order, keeps what was not sent, reports how many bytes moved, reads only what the stream has and writes only what it has room for. A write takes as many bytes as fit; one that may roll over takes all, and only the oldest bytes give way. "
  "Incoming bytes are kept in the order they were received; when more arrive than fit, only the oldest bytes that are not part of a complete line give way, and a complete line that was received is never overwritten.",
  ["schedules", "inputs"], "every behaviour of the underlying device over one or two transfers, buffers of one to three bytes, all byte values",
  "The tests use a mock that never fails mid-transfer; which call fails and where the buffer wraps at that moment is a schedule they do not enumerate.",
  ["io/stream/buffered_stream.cpp", "io/stream/buffered_stream.hpp"], [("push_out_data", "io/stream/buffered_stream.cpp"), ("pull_in_data", "io/stream/buffered_stream.cpp"), ("buffered_write", "io/stream/buffered_stream.cpp")],
  [("_tx_buffer,_rx_buffer", "bytes on their way out and in", "io/stream/buffered_stream.hpp")], ["the device's read and write calls", "output_buffer_space_used", "has_line"])

P("C08", "A transaction consumes its line once and abort undoes its output",
  "A transaction exists only when a complete line was received, and shows that line while it is open. "
  "However it ends (commit, abort, destruction, directly or after being moved), exactly that line is consumed from the input, once, and the lines behind it are intact. "
  "Aborting takes back exactly the bytes that were queued through the transaction; any other ending keeps them, in order, behind what was queued before.",
  ["histories", "inputs"], "all endings and moves, all bytes, lines of up to two bytes, every amount queued before and during the transaction up to a full output buffer",
  "Each test ends a transaction in one way on a roomy buffer; the combination of moves, a full output buffer and pending output is not enumerated.",
  ["io/stream/transaction.cpp", "io/stream/transaction.hpp", "io/stream/buffered_stream.cpp"], [("commit/abort/finalize", "io/stream/transaction.cpp"), ("new_transaction", "io/stream/buffered_stream.cpp")],
  [("_is_finalized,_buffered_size", "whether the duty was done or handed over; how much was queued", "io/stream/transaction.hpp")], ["new_transaction", "incoming", "outgoing", "the device's write calls"])

P("C09", "Pools hand out unused objects, which live exactly as long as they are held",
  "A pool hands out an object only if nobody else holds it, and hands out nothing exactly when every object is in use; acquiring and releasing neither creates nor destroys objects, and a released object can be acquired again. "
  "Objects leave a pool in the order they were added. Every object kept in a pool, an array or a vector is destroyed exactly once, when neither the container nor anyone else holds it, also when the container is moved, assigned to, cleared or destroyed.",
  ["histories"], "all histories of acquire and release on pools of one to three objects; all ways of populating, depopulating, moving and destroying them; vectors of up to three shared objects",
  "The tests acquire and release in a few fixed orders and do not count destructions.",
  ["structure/pool.hpp", "structure/array.hpp", "structure/vector.hpp"], [("acquire/populate/depopulate", "structure/pool.hpp"), ("~Array", "structure/array.hpp")],
  [("_store,_pointers", "the objects of the pool", "structure/pool.hpp")], ["acquire", "depopulate", "size", "destruction of objects"])

P("C10", "Futures leave the pipeline in order of time",
  "A future becomes due its delay after it was made, rescheduled or pushed, and futures compare by when they are due. The pipeline yields a future exactly when the earliest one is due, yields the earliest first and equal ones in the order they were pushed, never before its time, and keeps every other future. "
  "The time it reports until the next future is that of the earliest one, zero when one is due or none is pending, and never negative.",
  ["histories", "schedules"], "all delays and all passing of time up to 2^40 ms, every interleaving of up to five or six pushes and expiries on pipelines of two and three futures",
  "The tests push a few literal delays at literal times; insertion order depends on comparisons among all pending times.",
  ["eventsystem/pipeline.cpp", "eventsystem/pipeline.hpp"], [("push", "eventsystem/pipeline.cpp"), ("expire", "eventsystem/pipeline.cpp"), ("time_until_next_future", "eventsystem/pipeline.cpp")],
  [("_pipe", "futures, earliest first", "eventsystem/pipeline.hpp")], ["expire", "contains_expired_futures", "time_until_next_future"])

P("C11", "Events are delivered exactly once to every handler",
  "A scheduled event is delivered once, not before its time, by the first loop at or after it, to exactly the handlers attached to its identity in the order they were attached, with the data it was made with; a triggered event is delivered at once. "
  "Handlers may schedule and trigger further events while handling one without disturbing other deliveries. "
  "An event that is pending or held is never handed out again, a delivered one is; when every event is in use none is handed out, and scheduling or triggering then does nothing.",
  ["histories", "schedules"], "all delays and times up to 2^40 ms, all data, up to three scheduled events on a store of two, two handlers on two identities, nested scheduling and triggering with and without events left",
  "The tests schedule a few literal events; exhaustion, ties, nested scheduling and reuse interact in ways they do not enumerate.",
  ["eventsystem/eventsystem.cpp", "eventsystem/eventsystem.hpp", "eventsystem/pipeline.cpp", "structure/pool.hpp"], [("loop/trigger/schedule/event", "eventsystem/eventsystem.cpp")],
  [("_event_map,_pipeline,_event_store", "handlers per identity, pending events, unused events", "eventsystem/eventsystem.hpp")], ["EventHandler::handle_event"])

P("C12", "The event loop never sleeps past an event",
  "Between two loops the event system sleeps no longer than until its next pending event is due and no longer than its configured maximum, exactly as long as both allow; with nothing pending it sleeps the configured minimum, and not at all when configured not to. "
  "An event that becomes due during the sleep is delivered by the next loop.",
  ["inputs", "schedules"], "all delays, maxima and minima up to 2^40 ms, up to two pending events",
  "The tests sample one configuration; the relation must hold between three arbitrary times.",
  ["eventsystem/eventsystem.cpp"], [("loop", "eventsystem/eventsystem.cpp")], [], ["HAL::delay"])

P("C13", "Kernel time arithmetic is exact",
  "Times in kernel (integer) units convert to a finer unit exactly and back to the same value, and convert to a coarser unit by rounding to the nearest. "
  "Sums, differences, in-place updates and all six comparisons of times in the same or in different units give exactly the result that the times they stand for have, as long as the values fit.",
  ["inputs"], "all values that do not overflow, every pair of microseconds, milliseconds, seconds, minutes, hours and days",
  "The tests convert a few literals; precision was lost only for values above 2^24, and rounding and comparison errors show at particular remainders.",
  ["structure/units/primitives/unit.hpp", "structure/units/si.hpp"], [("converting constructor and operators", "structure/units/primitives/unit.hpp")], [("_value", "count in the unit", "structure/units/primitives/unit.hpp")], ["raw", "comparison operators"])

P("C18", "The mock platform keeps time and moves bytes exactly",
  "Time on the mock platform starts at zero, is advanced by exactly the sum of all delays, whatever their unit, and by nothing else, and is reported alike in microseconds and in whole milliseconds. "
  "The mock stream reads exactly the bytes that were injected and extracts exactly the bytes that were written, in order, and reports what is available and the room for writing accordingly.",
  ["histories"], "all sequences of delays of any length up to 2^50 us; all histories of four operations on mock streams of one and two bytes, with any bytes",
  "The tests use the mock clock as their ruler and never question it; sums of both units beyond a few literals are not sampled.",
  ["platform/implementations/mock.hpp", "platform/implementations/mock.cpp", "io/stream/implementations/mock.hpp", "io/stream/implementations/mock.cpp"], [("delay_us/delay_ms/micros/millis", "platform/implementations/mock.cpp"), ("inject_bytestream/extract_bytestream", "io/stream/implementations/mock.cpp")], [], ["HAL::millis", "HAL::micros", "MockStream::read", "MockStream::extract_bytestream"])

P("C19", "String utilities stay within their text and answer exactly",
  "Stripping removes exactly the delimiters at the front or at the back (white space unless told otherwise) and nothing else; a text starts and ends with exactly its prefixes and suffixes; the position of a delimiter is that of the first; text that is not a number converts to zero. "
  "For no text, the empty one and one of delimiters only included, is a character outside it looked at.",
  ["inputs"], "all texts of up to four arbitrary characters in memory of exactly that size; default, single and empty delimiter sets",
  "The tests strip a few literals in terminated memory, where looking beyond the end of a view goes unnoticed.",
  ["core/utils/string.hpp", "core/utils/string.cpp"], [("lstrip/rstrip/starts_with/ends_with/to_float", "core/utils/string.cpp")], [], ["lstrip", "rstrip", "starts_with", "ends_with", "to_float"])

P("C20", "A StaticString never leaves its storage and is always terminated",
  "Filling, resizing, growing and stripping a StaticString gives exactly the text they stand for, never moves or resizes its storage, never accesses memory outside it, and keeps the text terminated; prefixes and suffixes are recognised exactly. This holds for empty strings and strings of delimiters only as well.",
  ["inputs"], "all contents of up to four arbitrary characters; default, single and empty delimiter sets",
  "The tests strip a few literals; strings of delimiters only ran out of their storage.",
  ["structure/static_string.hpp", "structure/static_string.cpp"], [("lstrip/rstrip/data/starts_with/ends_with", "structure/static_string.cpp")], [("_s", "characters and size", "structure/static_string.hpp")], ["view", "c_str", "size"])

P("C21", "Times in text are read and printed consistently",
  "A text is read as a time exactly if it is a number followed by one of the units us, ms, s, m, h and d, and then has that number and unit; any other text, a missing number, an unknown unit or a number that does not fit included, is refused without throwing. "
  "A time that is printed can be read back, and what is read back is the time rounded to the unit it was printed in, which is one in which the number is not zero (unless the time is) and not needlessly large.",
  ["inputs"], "all texts of up to three characters, all numbers of up to 26 digits before every unit, all times up to 2^40 of each unit",
  "The tests parse and print a dozen literals; malformed text used to throw.",
  ["core/utils/time_repr.hpp", "core/utils/time_repr.cpp"], [("parse_time", "core/utils/time_repr.cpp"), ("repr", "core/utils/time_repr.cpp")], [], ["parse_time", "repr"])

P("C22", "A Result keeps its state and its value",
  "A Result is in exactly one state: a value, an intermediary value, an error or nothing; constructing, copying, moving and assigning keep that state and value and leave the source of a copy as it was. "
  "Chaining, mapping, continuing, recovering and matching call the given function exactly once with the value when the result is in the state they act on, not at all otherwise, and pass every other state on unchanged; defaults and fallbacks are used exactly when the value is absent. No value is leaked, destroyed twice or used after destruction.",
  ["inputs", "histories"], "all four states with arbitrary values; results of one type, of three number types and of owning objects; every operation",
  "The tests go through the states with literals of one type; overload choices differ by constness and value category.",
  ["structure/result.hpp"], [("Result", "structure/result.hpp")], [("_value", "variant of the states", "structure/result.hpp")], ["is_success", "is_failed", "is_intermediary", "value", "error_value"])

P("C23", "A latch respects its limits and its times",
  "An SRLatch starts off and may turn on at once. While on it stays on for its minimal on time whatever it reads, is forced off once its maximal on time (if any) has passed, turns off when the reading is below the lower limit and otherwise stays on; while off it stays off for its minimal off time, is forced on once its maximal off time (if any) has passed, turns on when the reading is above the upper limit and otherwise stays off. Both times are measured from its last change of state.",
  ["histories", "schedules"], "all limits, readings and times, any history of readings and passing of time of any length",
  "The tests walk one latch through a literal script in which both timers happen to agree.",
  ["controller/sr_latch.hpp", "controller/sr_latch.cpp"], [("new_reading", "controller/sr_latch.cpp")], [("_on,_timer", "state and time of its last change", "controller/sr_latch.hpp")], ["response"])

P("C26", "Timers and alarms expire exactly on time",
  "A timer reports exactly the time since it was last reset. An alarm keeps its time, has gone off exactly from that time on, and once seen to have gone off stays so even when the clock rolls around. An interval timer expires exactly when its interval has passed since it last started, which is the moment it announces, and then starts over once: from the moment it was due when it catches up, otherwise from now.",
  ["histories", "schedules"], "all intervals, all histories of passing of time, polls and resets of any length",
  "The tests poll at a few literal times; what is announced and what happens differ only at particular moments.",
  ["structure/time/timers.hpp", "structure/time/timers.cpp"], [("Timer/AlarmTimer/IntervalTimer", "structure/time/timers.cpp")], [("_last", "moment the timer last started", "structure/time/timers.hpp")], ["expired", "future", "time_until_next", "time_since_last"])

P("C27", "A schedule yields the value of the block in force and the start of the next",
  "At any second of the day a schedule has the value of the first of its blocks that covers that second, a block covering the time from its start up to but not including its end, past midnight too, and zero when none does. "
  "The next block is the one with the earliest start after the given time, whatever the order of the blocks, or the end of the day when none is left.",
  ["inputs"], "all schedules of one to three blocks with arbitrary starts, lengths and values in any order, at every second of the day",
  "The tests query ordered literal schedules; the answer depends on the order of the blocks and on comparisons among all their ends.",
  ["structure/time/schedule.hpp", "structure/time/schedule.cpp"], [("value_at/start_of_next_block", "structure/time/schedule.cpp")], [("_blocks", "start, length and value", "structure/time/schedule.hpp")], ["value_at", "start_of_next_block"])

P("C16", "Log messages are gated by level and never leave their buffer",
  "A message is printed exactly when its level is enabled, once, in a line of its own: the time, the level and the text, and a debug message where it comes from; formatted text is printed as it was formatted. Whatever the arguments and their length, it is cut off only when it does not fit, is terminated and nothing is written outside the buffer it is formatted in.",
  ["inputs"], "all levels; all texts of up to 16 characters at all lengths around a buffer of 32; arguments of any formatted length",
  "No test logs anything longer than the buffer, and overruns on the stack go unnoticed until they do not.",
  ["core/logging.hpp", "core/logging.cpp", "platform/platform.hpp"], [("print", "core/logging.cpp"), ("printf", "platform/platform.hpp")], [("g_log_level", "level up to which messages are enabled", "core/logging.cpp")], ["HAL::println", "HAL::print"])

P("C17", "An exception tells the handler, then halts the machine",
  "Throwing an exception tells the handler that is currently set, if any, about that exception exactly once, then logs it and halts the machine exactly once. Setting a handler hands back the one before, which then belongs to the caller.",
  ["histories"], "all sequences of setting, replacing and removing up to three handlers, all kinds of exceptions",
  "Tests cannot throw without ending themselves; none of this is exercised.",
  ["core/exception.hpp", "core/exception.cpp"], [("throw_error/set_machine_exception_handler", "core/exception.cpp")], [("eh_instance", "the handler that is set", "core/exception.cpp")], ["ExceptionHandler::handle_exception", "HAL::halt"])

P("C24", "A PID controller follows its configuration and stays within its limits",
  "The response never leaves the configured output limits. It changes only when a full sampling interval has passed since the last update and then is that of a PID controller with the tunings, proportionality (on error or on measurement), direction and sampling interval it was configured with, its integral part kept within the output limits; "
  "tunings and setpoint read back as set; tunings are equal when all of their gains are; copies of a controller work on their own state. Tuning answers every reading with one output, at one of the limits, switches when the reading passes the target by the hysteresis, finishes after the cycles asked for with the output off, and yields the Ziegler-Nichols gains (per second) averaged over the cycles after the first two.",
  ["histories", "schedules"], "all limits, setpoints, readings and times, histories of any length; gains, proportionality, direction and intervals from several literal configurations, and all gains as far as the limits are concerned",
  "There are no tests of the controller; a configuration that was ignored or scaled wrongly still responds plausibly.",
  ["controller/implementations/pid/pid_tuner.hpp", "controller/pid.hpp", "controller/pid.cpp", "controller/implementations/pid/pid_controller.cpp", "controller/implementations/pid/pid_controller.hpp", "controller/implementations/pid/pid_tuner.cpp"], [("update/set_tunings/set_sampling_time", "controller/implementations/pid/pid_controller.cpp"), ("do_autotune", "controller/implementations/pid/pid_tuner.cpp")], [("_cumulative_output,_last_reading,_last_time", "integral, last reading and time of the last update", "controller/implementations/pid/pid_controller.hpp")], ["response", "tunings", "process setter given to autotune"])

P("C25", "Filters do what they are documented to do, in order",
  "Every filter starts at zero and keeps the value it yields or is reset to. A range maps its input limits linearly to its output limits, clamping (or throwing, if told to) outside; an inverter mirrors within its limits; an average is that of all samples since the last reset until its frame is full and then moves by one frame's share; "
  "a band pass accepts samples within mantissa*10^(decades+1) of its centre, rejects others keeping its value, and accepts one (or throws, if told to) after the configured number of consecutive rejections, counting anew whenever it accepts a sample or is reset. "
  "A stack passes every sample through all attached filters once in the order they were attached; detaching yields the filter and keeps the others.",
  ["histories", "inputs"], "all samples and offsets, histories of any length; literal limits, widths and frames; stacks of up to three arbitrary filters",
  "There are no tests of the filters; what happens after a forced acceptance, a reset or a detachment shows only in longer histories.",
  ["filter/filter.hpp", "filter/filterstack.hpp", "filter/implementations/bandpass.hpp", "filter/implementations/ewma.hpp", "filter/implementations/invert.hpp", "filter/implementations/mapped_range.hpp", "filter/implementations/passthrough.hpp"], [("value/new_sample", "filter/implementations/bandpass.hpp"), ("value/attach_filter/detach_filter", "filter/filterstack.hpp")], [("_value,_rejections", "last accepted sample and rejections since", "filter/implementations/bandpass.hpp")], ["value", "new_sample", "detach_filter"])

P("C14", "Quantities of different kinds never mix",
  "A program that mixes quantities does not build: a unit converts to, is assigned from, compares and computes with units of its own quantity only (a length never passes for a duration, nor kelvin for celsius, nor a bare number for either), "
  "kernel time is whole and does not silently take real time, and compound units (one unit per another) meet only compounds with the same numerator and denominator quantities. Everything that does belong together builds.",
  ["inputs"], "all pairs of the named unit types and prefixes, all operators and conversions; literal pairs for compounds",
  "That something must not build cannot be tested by a program that builds; the tests only use valid combinations.",
  ["structure/units/primitives/unit.hpp", "structure/units/primitives/compound_unit.hpp", "structure/units/si.hpp"], [("Unit/SFINAE on tags", "structure/units/primitives/unit.hpp"), ("CompoundUnit", "structure/units/primitives/compound_unit.hpp")], [], ["the set of programs that compile"])

P("C15", "A unit is what its name says",
  "One of any named unit converts to the base unit of its quantity, and back, by the factor its name and prefix stand for (kilo is 1000, a minute is 60 s, celsius and kelvin differ by 273.15). "
  "Adding, subtracting, negating, scaling, dividing and comparing units of one quantity yields what those operations yield for the quantities, in whatever units the operands are, up to rounding of the representation; "
  "dividing by zero is an error and nothing else is. Kernel time converts to the same real time and back unchanged, and real time to kernel time by the rounding asked for, upwards by default.",
  ["inputs"], "every named unit and prefix; all values, in exact arithmetic, for the operators of representative pairs of units (factors 1, 60 and 1000)",
  "Tests compare a few literal conversions of a few units; a wrong factor in a unit they do not use, or a result that is in the wrong unit for one operator, stays unnoticed.",
  _UNITS + ["structure/units/primitives/unit.hpp", "structure/units/primitives/magnitudes.hpp", "structure/units/si.hpp"], [("raw/from/to/operators", "structure/units/primitives/unit.hpp"), ("magnitudes", "structure/units/primitives/magnitudes.hpp"), ("to_kelvin/to_celsius", "structure/units/temperature.hpp")], [("_value", "the number of units", "structure/units/primitives/unit.hpp")], ["raw", "operators", "to_kelvin", "to_celsius", "to_kernel_time", "to_real_time"])

P("C28", "Compound units compute with their quantities",
  "A compound unit, of a numerator and a denominator, has the value of the one by the other. Converting, adding, subtracting, negating, scaling, dividing and comparing compounds of one kind yields what those operations yield for the quantities, in whatever units numerators and denominators are, up to rounding of the representation; "
  "dividing by zero, or asking for the value over nothing, is an error. Simplifying keeps the ratio, whatever its sign and size.",
  ["inputs"], "all numerators, several denominators of both signs, in exact arithmetic, for representative pairs of compounds (numerators a factor of 1, 1000 or 1/1000 apart, denominators 1, 60 or 24); literal fractions of both signs for simplification",
  "The tests compare literal values that mostly have equal denominators; mixing up the units of numerators and denominators shows only when both differ.",
  ["structure/units/primitives/compound_unit.hpp"], [("CompoundUnit", "structure/units/primitives/compound_unit.hpp")], [("_numerator,_denominator", "numerator and denominator", "structure/units/primitives/compound_unit.hpp")], ["raw", "numerator", "denominator", "operators", "simplify"])

P("C29", "Outputs and inputs show what their implementation was told",
  "An output is initialized to the state asked for, has the state or value it was last set to, and its implementation is told of every setting once, after it was initialized and never before. "
  "A fade moves monotonically from where the output is to the setpoint, in steps no larger than the increment and one interval apart, never leaves the range between, and ends at the setpoint. Inputs and interrupts forward to their implementation exactly what was asked.",
  ["histories", "inputs"], "all histories of initializing, setting, flipping and fading, with all levels, increments and intervals; arbitrary implementations",
  "There are no tests of the GPIO interfaces; a fade that overshoots or stops short does so for particular distances and increments only.",
  ["platform/gpio.hpp", "platform/gpio.cpp"], [("AnalogueOutput::fade_to/DigitalOutput", "platform/gpio.cpp")], [("_state/_value", "state or value last set", "platform/gpio.hpp")], ["state", "value", "read", "set_state/set_value of the implementation"])

P("C30", "Points compute by component",
  "Points in the plane and in space start at the origin, hold the components they are given, and add, subtract, multiply, divide and take remainders by component, by another point or by a number. They are equal exactly when all components are. "
  "The length is the root of the sum of the squares and normalizing divides each component by the length.",
  ["inputs"], "all components; several literal factors for products and quotients; literal points with a rational length",
  "The tests use a few points with equal or literal components, so that exchanged or skipped components need not show.",
  ["structure/point.hpp"], [("XYPoint/XYZPoint operators", "structure/point.hpp")], [("x,y,z", "components", "structure/point.hpp")], ["operators", "mag", "normalize"])

P("C31", "A stack is last in, first out within its capacity; a tuple holds its elements",
  "Pushing onto a stack that is not full puts the element on top and changes nothing else; pushing onto a full one changes nothing. Popping removes the top element, so that of those left the one pushed last is on top. Size, emptiness and capacity agree at all times and no access leaves the store; "
  "a tuple hands back the elements it was made of, in their order.",
  ["histories"], "all capacities and histories of any length, and any five nested operations after any history; all element values",
  "Nothing tests the stack, which could not even be built; the bounds matter at full and empty only.",
  ["structure/stack.hpp", "structure/tuple.hpp", "structure/vector.hpp"], [("push/pop/top/emplace", "structure/stack.hpp")], [("the container", "elements in order of pushing", "structure/stack.hpp")], ["top", "pop", "size", "empty"])

P("C32", "On Arduino the platform does to the hardware what it is asked to",
  "Outputs drive their pin high or low as asked, inverted when active on low, and only after making it an output; analogue values are scaled to the resolution, full scale being the largest value it has, and never beyond. Inputs configure their pull-up as asked and read their pin; "
  "interrupts are attached to the interrupt of their pin with the trigger asked for, and detached from the same. Bytes and blocks go through the serial port unchanged, and a read succeeds exactly when there was something to read; time and delays are those of the core, in the unit asked for, and a logged message is printed as one line and flushed.",
  ["inputs", "histories"], "all pins, polarities, levels, bytes, block lengths and times; resolutions of 8, 10 and 12 bits",
  "The Arduino implementation is not compiled by the tests at all.",
  ["platform/implementations/arduino.hpp", "platform/implementations/arduino.cpp"], [("Arduino", "platform/implementations/arduino.hpp")], [], ["calls into the Arduino core"])

P("C33", "Every header stands on its own",
  "A program that includes any one header of the library builds, and can use what the header offers: it needs no other header before it, may come before or after any other, may be included repeatedly and in several translation units, which can then be linked.",
  ["inputs"], "every header under src/spine, alone, twice, before and after the platform, all together in both orders",
  "The tests include headers in one order each, after others that happen to bring in what is missing.",
  ["structure/array.hpp", "structure/point.hpp", "structure/units/si.hpp", "controller/pid.hpp", "core/debugging.hpp", "platform/hal.hpp", "io/stream/stream.hpp", "filter/filterstack.hpp", "eventsystem/eventsystem.hpp"], [("#include, #pragma once", "every header")], [], ["whether a program builds and links"])

P("C34", "On Zephyr the platform does to the kernel what it is asked to",
  "Milliseconds and microseconds since start are those of the kernel; a delay takes the time asked for, in the unit asked for, to the microsecond, and never sleeps a negative time. "
  "A message goes to the kernel's log once, at its own level, as text and never as a format, exactly when its level is enabled; the level reads back as it was set and the kernel logs at it, nothing when it is off. Halting panics the kernel with or without a reason.",
  ["inputs"], "all times, delays up to 2*10^9 units, all levels and messages",
  "The Zephyr implementation is not compiled by the tests at all.",
  ["platform/implementations/zephyr.hpp", "platform/implementations/zephyr.cpp"], [("Zephyr", "platform/implementations/zephyr.cpp")], [], ["calls into the Zephyr kernel"])

P("C35", "In a debug build legal use never trips an assertion, and misuse does",
  "With DEBUG_SPINE defined, no assertion of the library fails while it is used as it may be used: adding where there is room, taking where there is something, indexing elements that exist, whatever the arguments, times and history. "
  "Misuse trips an assertion, so that it is noticed before it does harm: adding to what is full, taking from or looking into what is empty, indexing past the end, acquiring from a pool that is not filled, reading the wrong kind of value of a result or of an event's data, attaching or triggering nobody, expiring what is not due, using a finished transaction, and schedules, alarms and ranges that make no sense.",
  ["inputs", "histories"], "every client of the other properties once more as a debug build, and every kind of misuse listed, after any history of a vector and with any values",
  "The tests run without a debug build, or trip assertions at a handful of literal values; a wrong bound in an assertion shows at that bound only.",
  ["core/debugging.hpp", "structure/vector.hpp", "structure/pool.hpp", "structure/result.hpp", "io/stream/transaction.cpp", "eventsystem/pipeline.cpp", "eventsystem/eventsystem.cpp", "structure/time/datetime.cpp"],
  [("spn_assert", "core/debugging.hpp")], [], ["the exception handler"])

P("C36", "What is logged asks for exactly the values it is given",
  "Every printf-style text in the library, whether it is logged, formatted or scanned, on every platform and with or without debugging, has one conversion for each value, of that value's type; no text that was made at run time is used as a format.",
  ["inputs"], "every source file, header and template instance, on the native, Arduino and Zephyr platforms, with and without DEBUG_SPINE",
  "Most messages are compiled in or reached only in a debug build or on an error path; a mismatch prints rubbish or crashes on some platforms only.",
  ["core/logging.hpp", "core/logging.cpp", "core/debugging.hpp", "controller/pid.cpp", "structure/time/datetime.cpp"], [("SPN_LOG_IMPL", "core/logging.hpp"), ("print", "core/logging.cpp")], [], ["the log"])

P("C37", "A pipeline prints the times until its futures",
  "The text of a pipeline is 'Pipeline: [' followed by the times until its futures, the next one first, as they are printed elsewhere and separated by a comma and a space, and ']'; it is the same with and without debugging, an empty pipeline prints empty brackets, and printing changes nothing. The event system prints the pipeline of what it scheduled.",
  ["inputs", "histories"], "pipelines of none to three futures pushed in reverse order, printed at any time, before and after time passed",
  "The one test of it looks at a single text; separators and the passes over the text differ with the number of futures and the kind of build.",
  ["eventsystem/pipeline.cpp", "eventsystem/eventsystem.hpp"], [("Pipeline::to_string", "eventsystem/pipeline.cpp")], [("_pipe", "futures in order of their time", "eventsystem/pipeline.hpp")], ["to_string", "pipeline_as_string"])

P("C38", "A date and time is what it was made of",
  "Made of a timestamp, a DateTime keeps it and its fields are those of UTC. Made of fields or of texts in the form of __DATE__ and __TIME__, the calendar is given exactly that date and time, as decimal numbers and the month named, is told about daylight saving or asked to find out, and what it answers are the fields and the timestamp. "
  "The time since 2000 is always 946684800 seconds less than that since 1970, and formatting leaves buffer, size and format to the C library.",
  ["inputs"], "all timestamps below 2^50 s, all fields, all texts of that form (any digits, all twelve months), any answer of the calendar",
  "Nothing tests DateTime; texts whose numbers start with a zero, or the state of fields nobody sets, differ from a sample that happens to work.",
  ["structure/time/datetime.cpp", "structure/time/datetime.hpp"], [("DateTime", "structure/time/datetime.cpp")], [("_unix_timestamp, _y2k_timestamp, _tm", "the same moment three times", "structure/time/datetime.hpp")], ["getUnixTime", "getY2kTime", "get*", "strf_DateTime"])

P("C42", "Joined texts are their parts in order",
  "Texts joined by concatenation consist of the characters of every part, in the order of the parts, followed by one terminator, and are exactly as long as all parts together; this holds for any number of parts, for empty ones, for joined texts joined again, and at compile time as well as at any other. "
  "The length that is computed beforehand is that of the result, and the index of an enumerator is its value.",
  ["inputs"], "all texts, all numbers of parts, all enumerators",
  "The tests join one or two literals; empty parts, single parts and nested joins place the terminators differently.",
  ["core/utils/concatenate.hpp", "core/meta/enum.hpp"], [("concat, concatenate", "core/utils/concatenate.hpp"), ("ENUM_IDX", "core/meta/enum.hpp")], [], ["concat", "string_length", "ENUM_IDX"])

P("C43", "A variant of unique types has each type once",
  "The list of unique types made of any list of types contains every type of that list exactly once and no other, those named once in the order they are named, and the variant made of it has exactly these alternatives. "
  "Wrappers of different types are different types, a wrapper holds what was wrapped, converts to a reference to it, and moving it moves what it holds.",
  ["inputs"], "all lists of types, all values",
  "No test instantiates it; a repeated type makes a variant ambiguous only in the program that happens to repeat it.",
  ["core/meta/unique_type_variant.hpp"], [("Unique, ToVariant, Wrapper", "core/meta/unique_type_variant.hpp")], [], ["Unique", "ToVariant::type", "Wrapper::value"])

P("C44", "Text functions of a stream are those for bytes",
  "Reading or writing characters, text or views through a stream reads or writes exactly the bytes at that place and of that length, once, through the functions for bytes of the implementation, and yields what these yield. "
  "A port is in good order until it is given another status, and then has the status given last.",
  ["inputs", "histories"], "all texts and lengths, all implementations of a stream, all histories of statuses",
  "The tests write short texts through mocks that hide these functions; lengths and answers that differ from the request are not sampled.",
  ["io/stream/stream.hpp", "platform/protocols/uart.hpp"], [("Stream::read/write for char and string_view", "io/stream/stream.hpp"), ("UART::set_status", "platform/protocols/uart.hpp")], [], ["read", "write", "status"])

P("C45", "An array holds what it was given",
  "An array made for a number of elements has that many and starts with zeros (with default-made objects, when the elements are of a class); one made with an initial value has it everywhere, one made of or assigned a list has its elements in order, one over a store shows what is there, and one over a buffer has as many elements as fit and starts with zeros. "
  "An element is what was written to it last, whichever accessor is used; filling sets every element, swapping exchanges and moving hands over the elements, and what is written through a copy or a view is written to its source. "
  "Nothing outside the elements is touched.",
  ["inputs"], "all capacities up to 2^32 at arbitrary indices; every element of arrays of one to three; elements of 1, 4 and 16 bytes",
  "The tests use one type of element and a few literal values; buffers whose length is no multiple of an element, or elements that are not reached, stay unnoticed.",
  ["structure/array.hpp"], [("Array", "structure/array.hpp")], [("m_store,m_max_size", "the elements and their number", "structure/array.hpp")], ["operator[]", "at", "front", "back", "data", "size"])

P("C39", "Floating point results are within rounding of the exact ones",
  "Filters, the controller, points and conversions between fractional units deviate from the results in real arithmetic by no more than the rounding of their operations, for all finite inputs and any history.",
  ["inputs", "histories"], "all finite floats and all histories",
  "Rounding accumulates over histories that no sample contains.",
  ["filter/implementations/ewma.hpp", "controller/implementations/pid/pid_controller.cpp", "structure/point.hpp", "structure/units/si.hpp"], [("arithmetic in float and double", "filter/implementations/ewma.hpp")], [], ["value"],
  na="A bound on rounding over histories of any length needs an error analysis of floating point with relational invariants; the abstract domain here is exact over the reals (C24, C25, C30 and C13 decide the real-number part) and does not bound rounding.")

P("C40", "Autotuning finds tunings that make the process settle",
  "The tunings that autotuning proposes make a process that oscillates under relay control settle at its setpoint.",
  ["inputs", "histories"], "all processes within the method's conditions",
  "The tests tune one simulated process.",
  ["controller/pid.cpp", "controller/implementations/pid/pid_tuner.cpp"], [("PID::autotune", "controller/pid.cpp")], [], ["autotune"],
  na="A statement about the closed loop with a physical process: nothing in the source determines the process, so no static argument over the source can decide whether it settles (what autotuning does with its readings is part of C24).")

P("C41", "Interrupt handlers do not disturb the program they interrupt",
  "An interrupt that arrives at any point of the program leaves the data shared with it consistent.",
  ["schedules"], "all points of arrival",
  "A test cannot choose where an interrupt arrives.",
  ["platform/platform.hpp", "platform/implementations/arduino.hpp"], [("Interrupt", "platform/platform.hpp")], [], ["the interrupt's callback"],
  na="The library keeps no data that both its interrupt handlers and the program write: the callback is the user's, and what it shares with the program lies outside of this source. Attaching, detaching and dispatching are part of C32.")

from .props import prop, isa, NA

PBT = "property-based testing: "
CON = ["console output"]

prop("C01", "Loaded files put exactly their data at their addresses",
     "Loading (or, with `check`, comparing) an Intel HEX, S-record, OMF-51, p2h or asc file stores every data word "
     "of every valid record at exactly the address the file format defines, shifted by the :offset and limited to "
     "the #range given, into the selected memory (rom or @memory), and changes no other cell; words of 16, 18, 24 "
     "and 32 bit memories are assembled from bytes as the format defines. Records with a wrong checksum are not "
     "stored. `check` reports exactly the cells that differ and modifies nothing.",
     ["inputs"], "all files of the five formats x record sizes, types and orders x @memory, :offset and #range "
     "modifiers x memory widths x ways to load (load, file, command line, download, no extension)",
     "The three stable tests load one fixed ihx file each; formats, widths and modifiers are never combined.",
     ["src/core/sim.src/uc.cc", "src/core/sim.src/inspec.cc", "src/core/utils.src/fio.cc"],
     [dict(name="record readers", where="src/core/sim.src/uc.cc read_hex_file, read_s19_file, read_omf_file, read_p2h_file, read_asc_file"),
      dict(name="file specifier", where="src/core/sim.src/inspec.cc")],
     observe=["dumps of every memory after the load", "output of `check`"],
     technique=PBT + "generated files against a model of the file formats and of the memories",
     note="Random files and modifiers on four simulators with 8, 16, 18 and 32 bit memories; whole memories are compared.")

prop("C02", "Memory dumps show exactly the contents of the memory",
     "`dump` of any range of any memory chip or address space prints, in every format (hexadecimal, default with "
     "variables, raw binary, Intel HEX, string), exactly the cells of the range clipped to the memory, each with its "
     "address and value, in the requested number of cells per line; a dump without a start address continues where "
     "the last one ended. A dump in Intel HEX format loaded back restores the range exactly, for every memory width.",
     ["inputs", "histories"], "all memory widths (1..32), sizes, start addresses x contents x ranges, formats, bytes per "
     "line x variables in the range x sequences of dumps and changes",
     "No stable test dumps memory; widths, range clipping and continuation multiply beyond examples.",
     ["src/core/sim.src/mem.cc", "src/core/cmd.src/cmd_uc.cc", "src/core/sim.src/memcl.h"],
     [dict(name="dump formats", where="src/core/sim.src/mem.cc dump, dump_b, dump_s, dump_i"),
      dict(name="dump command", where="src/core/cmd.src/cmd_uc.cc")],
     observe=["console output", "files written by redirected dumps"],
     technique=PBT + "command sequences against a model of the memories; dump/load round trip",
     note="Random sequences on chips of every width created on the fly and on address spaces.")

prop("C03", "Memory commands change and find exactly the addressed cells",
     "`set memory`, bit assignments and `fill` write exactly the given data, cut to the width of the memory, into "
     "exactly the addressed existing cells or bits and leave every other cell unchanged. `where` and `Where` list "
     "every occurrence (overlapping ones too) of the data list in the memory and nothing else, without or with "
     "regard to letter case, and `hole` lists every area filled with the value that is longer than the given length.",
     ["inputs", "histories"], "all memory widths, sizes and start addresses x contents x addresses, ranges and data lists",
     "No stable test uses these commands.",
     ["src/core/cmd.src/cmd_uc.cc", "src/core/cmd.src/cmd_set.cc", "src/core/sim.src/mem.cc", "src/core/sim.src/arg.cc"],
     [dict(name="set memory", where="src/core/cmd.src/cmd_set.cc"), dict(name="fill, where, hole", where="src/core/cmd.src/cmd_uc.cc"),
      dict(name="search", where="src/core/sim.src/mem.cc search_next")],
     observe=["console output", "dumps of every memory at the end"],
     technique=PBT + "command sequences against a model of the memories",
     note="Random sequences on chips of every width and on address spaces; all memories are compared at the end.")

prop("C04", "Every address leads to exactly the chip cell configured for it",
     "After any sequence of `memory create chip/addressspace/addressdecoder/banker/bank/bander` and `memory remove chip` "
     "commands, every address of an address space leads to the chip cell (or bit, for a bit bander) given by the newest "
     "decoder covering it: reads, writes, `set memory`, `fill`, expressions, executed loads and stores and instruction "
     "fetches through the address use that cell, and no access through any other address, decoded or not, changes it. "
     "A new decoder takes over exactly its area and older ones keep the rest; a write to the register of a banker "
     "switches the banked area to the selected bank (a bank which is not defined leaves it unchanged). `info memory` "
     "and `memory cell` report this mapping, and wrong specifications are refused without any effect.",
     ["inputs", "histories"], "all sequences of memory configuration commands and accesses; bankers and banders are replaced as a whole "
     "and the register of a banker stays decoded",
     "No stable test uses these commands.",
     ["src/core/cmd.src/cmd_mem.cc", "src/core/sim.src/mem.cc", "src/core/sim.src/memcl.h", "src/core/sim.src/uc.cc"],
     [dict(name="decoders", where="src/core/sim.src/mem.cc cl_address_decoder, cl_address_space::undecode_area"),
      dict(name="bankers and banders", where="src/core/sim.src/mem.cc cl_banker, cl_bander"),
      dict(name="remove chip", where="src/core/sim.src/uc.cc remove_chip")],
     observe=["dumps of all spaces and chips", "info memory", "memory cell"],
     technique=PBT + "command sequences against a model of the memory map",
     note="Random sequences on the MCS51 simulator's own and on created spaces of 1, 8, 16 and 32 bits.")

prop("C05", "Expressions evaluate as documented",
     "Evaluating any expression gives the value defined by the documentation: C operator precedence and associativity, "
     "64 bit signed arithmetic, all unary, binary, comparison, logical, conditional, increment and assignment "
     "operators, number bases, characters, memory cells, bit and bit range operands and variables. Assignments change "
     "exactly the designated cell or bits, cut to the width of the cell, and nothing else; a division by zero is "
     "reported and changes nothing.",
     ["inputs", "programs"], "all expressions up to a generated size over all operators, operand kinds and values, and "
     "sequences of them",
     "No stable test evaluates an expression; operators x widths x nesting is unbounded.",
     ["src/core/cmd.src/cmdpars.y", "src/core/cmd.src/cmdlex.l", "src/core/cmd.src/cmdutil.cc", "src/core/sim.src/mem.cc", "src/core/sim.src/var.cc"],
     [dict(name="expression grammar and evaluation", where="src/core/cmd.src/cmdpars.y, src/core/cmd.src/cmdlex.l")],
     observe=["value printed by `expr`", "memory after the assignments"],
     technique=PBT + "generated expressions against a reference evaluator",
     note="Random expression trees with random layout; format options of expr are included.")


prop("C06", "A variable names exactly the location and bits it was defined for",
     "var in each of its forms (address, bit, bit range, cell, other variable, next free cell of the variables space) makes its name stand for exactly that "
     "location until it is redefined or removed; a definition with a bad name, address, bit or memory is refused and changes nothing. "
     "Reading, writing and addressing by name (whole cell or .bit and [high:low]) acts on exactly the named cell; info variables lists exactly the defined names that match, sorted, "
     "with location and value; dumps show every name of the cells they show, at its cell, with its bits; predefined variables stay as they are.",
     ["inputs", "histories"], "all sequences of var, rmvar and uses of names x memories x bit ranges x values",
     "The meaning of a name depends on the whole history of definitions; no stable test defines a variable.",
     ["src/core/sim.src/var.cc", "src/core/cmd.src/cmd_uc.cc", "src/core/cmd.src/cmd_info.cc", "src/core/sim.src/mem.cc", "src/core/cmd.src/cmdlex.l", "src/core/sim.src/arg.cc"],
     [dict(name="variable table", where="src/core/sim.src/var.cc cl_var_list; cmd.src/cmd_uc.cc cl_var_cmd, cl_rmvar_cmd"),
      dict(name="names in output", where="src/core/cmd.src/cmd_info.cc cl_info_var_cmd; sim.src/mem.cc cl_memory::dump")],
     observe=["console output", "memory contents"],
     technique=PBT + "stateful generation of definitions and uses against a model of the name table")

prop("C07", "Fetch breakpoints stop execution exactly where and when they should",
     "A run stops before an instruction whose address holds a fetch breakpoint exactly when the breakpoint has been "
     "reached its hit count number of times and its condition is true, with no effect of that instruction yet done, and "
     "nowhere else; the first instruction of a run or step is executed without regard to its breakpoint. Temporary "
     "breakpoints disappear when they stop the program, clear and delete remove exactly the named ones, the commands and "
     "displays attached are done at the stop, and `info breakpoints` lists exactly the existing ones with their numbers, "
     "kinds and counts.",
     ["programs", "histories"], "all programs x sequences of break, tbreak, clear, delete, commands, display, run, step, "
     "next and pc commands",
     "No stable test sets a breakpoint; the interplay of breakpoints, counts, conditions and stepping is a history property.",
     ["src/core/sim.src/brk.cc", "src/core/sim.src/uc.cc", "src/core/sim.src/sim.cc", "src/core/cmd.src/cmd_bp.cc", "src/core/cmd.src/cmd_exec.cc"],
     [dict(name="breakpoint collections", where="src/core/sim.src/brk.cc"), dict(name="breakpoint test before execution", where="src/core/sim.src/uc.cc do_brk, do_inst")],
     observe=["console output (stop reports, lists)", "PC and data cells after every stop"],
     technique=PBT + "generated programs and command histories against a model of run control",
     note="Random programs for eight CPU families with loops, calls and data accesses; the model predicts every stop.")

prop("C08", "Event breakpoints stop after exactly the accesses they watch",
     "A program is stopped by a read or write event breakpoint after exactly the instruction that makes the watched kind "
     "of access to the watched cell for its hit count's time with a true condition, and the event is reported with its "
     "kind, memory and address; accesses made from the console, by the evaluation of conditions or by displays, accesses "
     "of the other kind and to other cells never count. Temporary ones disappear when they stop the program.",
     ["programs", "histories"], "all programs x sequences of event breakpoint, run, step and memory commands",
     "No stable test sets an event breakpoint.",
     ["src/core/sim.src/brk.cc", "src/core/sim.src/uc.cc", "src/core/sim.src/mem.cc", "src/core/cmd.src/cmd_bp.cc"],
     [dict(name="event breakpoints as memory operators", where="src/core/sim.src/mem.cc cl_write_operator, cl_read_operator"),
      dict(name="check_events", where="src/core/sim.src/uc.cc")],
     observe=["console output (stop reports, events)", "PC and data cells after every stop"],
     technique=PBT + "generated programs and command histories against a model of run control",
     note="Random programs for eight CPU families; watched cells are data cells accessed by load and store instructions.")

prop("C09", "Execution can be cut into pieces without changing it",
     "For every CPU type: executing a program by single steps, by `step N`, by `run START STOP`, by runs stopped by fetch "
     "breakpoints and continued, or in any mixture of these, passes through the same instructions and leaves exactly the same "
     "state: PC, registers, memories, hardware elements, counters, history and interrupt state. Each piece stops at the "
     "address and for the reason that the single steps predict.",
     ["programs", "histories", "schedules"], "all memory contents (also random opcodes, interrupts, prefixes, invalid "
     "instructions, sleeping CPUs) x all ways to cut an execution into pieces, on 62 CPU types",
     "The stable tests run one uninterrupted execution each; pieces multiply programs by stop points.",
     ["src/core/sim.src/uc.cc", "src/core/sim.src/sim.cc", "src/core/cmd.src/cmd_exec.cc", "src/sims"],
     [dict(name="instruction execution", where="src/core/sim.src/uc.cc do_inst, do_brk; exec_inst of every simulator"),
      dict(name="run control", where="src/core/sim.src/sim.cc step, start, stop")],
     observe=["stop reports", "dumps of all memories, registers, hardware, variables, history and breakpoint list at the end"],
     technique=PBT + "metamorphic relation: the same random execution in pieces and by single steps",
     note="Random code built from the opcodes of each CPU, random memory, all CPU types; every piece's stop and the whole final state are compared.")

prop("C10", "Looking does not change the simulation; the same commands give the same result",
     "For every CPU type: a run of the simulator is determined by its input files, commands and random seed: repeating it gives the same "
     "output and the same state, whatever the fresh memory of the process contains. And commands that only look (info, state, disassembly, history, "
     "conf, show, get, help, expressions without assignment, dumps and searches of memory that is not a hardware register with read "
     "side effects, setting and removing things, wrong commands) put anywhere between executing commands change neither what "
     "is executed nor any register, memory, hardware element, counter, history or interrupt state.",
     ["programs", "histories", "schedules"], "all memory contents and CPU types x all histories of executing commands x all interleaved looking commands",
     "The stable tests run fixed command files once; neither repetition nor looking commands in between occur.",
     ["src/core/sim.src", "src/core/cmd.src", "src/core/utils.src/pobj.cc", "src/sims"],
     [dict(name="looking commands", where="src/core/cmd.src/*.cc; print_regs, disassembly and print_info of every simulator"),
      dict(name="initial state", where="src/core/utils.src/pobj.cc, src/core/sim.src/mem.cc, constructors and init() of every simulator")],
     observe=["whole console output of two runs", "dumps of all memories, registers, hardware, variables, history and breakpoints at the end"],
     technique=PBT + "metamorphic relations: repetition with other garbage in memory; the same history with looking commands put in between",
     note="Random code for 62 CPU types; commands that only look must not change the final state; repetition must give identical output.")

prop("C11", "Reset brings the processor into its defined initial state and forgets the past",
     "After any history (instructions, register and hardware settings, interrupts pending or in progress, timers and serial lines "
     "running), `reset` leaves every CPU type in the state that `reset` gives in a fresh simulator: registers and hardware registers that "
     "have a defined reset value hold it, PC is at the reset address (or what the reset vector contains), and clock, instruction and timer "
     "counters restart. It changes no memory contents and no breakpoints; a second reset changes nothing; and the same program "
     "run after it executes exactly as in a fresh simulator, whatever ran before.",
     ["programs", "histories"], "all programs, register and hardware settings executed before the reset x CPU types x what is run after it",
     "No stable test uses `reset`; what survives one depends on the history.",
     ["src/core/sim.src/uc.cc", "src/core/sim.src/hw.cc", "src/sims/s51.src", "src/sims/stm8.src", "src/sims/z80.src"],
     [dict(name="reset of the core", where="src/core/sim.src/uc.cc cl_uc::reset"), dict(name="reset of CPUs", where="cl_*::reset in src/sims/*.src"),
      dict(name="reset of hardware elements", where="cl_hw::reset and its overrides")],
     observe=["info variables, state, breakpoints and dumps of all memories around the reset", "console output and state of the program run afterwards"],
     technique=PBT + "differential: the simulator after a random history and a reset against a fresh simulator",
     note="Random code and hardware settings for 61 CPU types before the reset; registers without a defined reset value are exempt; the run after the reset is compared on the CPU types whose whole state can be restored.")

prop("C12", "Clock, counters and timers measure exactly the executed instructions",
     "Executing a program in any pieces (steps, runs, runs to breakpoints) advances the total clocks, the simulated time (clocks "
     "divided by the xtal frequency), the instruction, fetch, read and write counters and the vclk sum by exactly the "
     "amounts of the executed instructions; one instruction counts once, with as many fetches as it has words. `step N unit` stops "
     "after the first instruction that reaches the limit. User timers count, in their direction, exactly the clocks that pass "
     "while they run, from the value they were set to, and list, get, add and delete act on exactly the named timer.",
     ["programs", "histories"], "all programs x sequences of step, run, breakpoint, timer, xtal and state commands",
     "No stable test uses timers or counters.",
     ["src/core/sim.src/uc.cc", "src/core/sim.src/sim.cc", "src/core/cmd.src/cmd_timer.cc", "src/core/cmd.src/cmd_exec.cc", "src/core/cmd.src/cmd_uc.cc"],
     [dict(name="tickers", where="src/core/sim.src/uc.cc tick, cl_ticker"), dict(name="timer commands", where="src/core/cmd.src/cmd_timer.cc"),
      dict(name="time limits", where="src/core/sim.src/uc.cc cl_time_measurer")],
     observe=["output of state, timer and step commands"],
     technique=PBT + "two executions of generated programs: the costs measured by single steps predict every other execution",
     note="Random programs for eight CPU families; costs come from single stepping, fetch and instruction counts from the program.")


prop("C13", "The execution history records exactly the executed instructions",
     "The history lists the addresses of exactly the instructions that have been executed since it was cleared, in order, "
     "with consecutive repetitions of the same address counted, up to the last 10000 entries; `history list N` "
     "shows the last N of them and `history info` their numbers. Instructions at which a breakpoint stopped the program are "
     "not recorded until they are executed.",
     ["programs", "histories"], "all programs x sequences of step, next, run, breakpoint and history commands",
     "No stable test uses the history.",
     ["src/core/sim.src/uc.cc", "src/core/cmd.src/cmd_exec.cc"],
     [dict(name="execution history", where="src/core/sim.src/uc.cc")],
     observe=["console output of history commands"],
     technique=PBT + "generated programs and command histories against a model of run control",
     note="Random programs for eight CPU families, also with executions longer than the history.")


prop("C14", "The disassembler and the execution agree about every instruction",
     "For every instruction the disassembler knows, on every CPU type: the length it shows is the number of units its "
     "execution fetches, the code it shows is the content of the memory, execution of an instruction that is not a jump "
     "continues at the address shown on the next line, and a jump that is taken goes to the address shown as its operand. "
     "A `step` from any address makes exactly that one instruction.",
     ["inputs", "programs"], "all CPU types x all instruction codes with all prefixes and operands x addresses x states left by the former instructions",
     "No stable test disassembles anything; every simulator has its own decoder and its own tables, which must agree for every code.",
     ["src/sims/*/glob.cc", "src/core/sim.src/uc.cc", "src/core/cmd.src/cmd_uc.cc"],
     [dict(name="instruction tables", where="disass_* tables of every simulator and their get_disasm_info(), disassc(), inst_length()"),
      dict(name="instruction fetch", where="fetch() and exec_inst() of every simulator")],
     observe=["output of dc, step, state and dump"],
     technique=PBT + "differential: disassembler against execution, on generated instruction codes",
     note="Random codes, prefixes and addresses on more than 50 CPU types (XA, announced as unstable, is left out).")


prop("C24", "The timers of the MCS-51 count exactly the machine cycles and pin edges",
     "On the 8052 and the 89C51R, after every instruction the counters, reload and capture registers and flags of timers 0, 1 and 2 are those of "
     "the documentation: a running timer advances by the number of machine cycles of the instruction (six times as much in the baud rate generator mode of timer 2), "
     "a running counter by the falling edges of its pin (a change of the latch or of the pin), a stopped or gated one not at all; "
     "13 bit, 16 bit, 8 bit reload and split modes of timers 0 and 1, capture, reload, up/down and baud modes of timer 2 wrap, reload, capture and "
     "set TFx and EXF2 exactly when they overflow or the external pin tells; writing a control register, by byte or by bit, takes effect at once and nothing else changes.",
     ["inputs", "histories", "programs"], "all sequences of instructions x timer registers x modes x changes of pins and latches",
     "The value of a timer depends on every instruction, mode change and pin change since it was started; no stable test reads a timer.",
     ["src/sims/s51.src/timer0.cc", "src/sims/s51.src/timer1.cc", "src/sims/s51.src/timer2.cc", "src/sims/s51.src/port.cc", "src/sims/s51.src/uc51.cc", "src/core/sim.src/hw.cc"],
     [dict(name="timers", where="src/sims/s51.src/timer0.cc, timer2.cc tick, write, happen"), dict(name="ports", where="src/sims/s51.src/port.cc write, set_pin")],
     observe=["timer registers, flags and registers of the CPU after every instruction"],
     technique=PBT + "generated instruction, register write and pin change histories against a reference model of the timers on top of the instruction model")

prop("C16", "The simulator interface cell answers every command sequence as documented",
     "A program that writes command characters to the simulator interface cell and reads it back gets the documented answers, whatever the order of commands, parameters and "
     "reads: detection, list, version, number of parameters and kind of answer, help text (the same as info hardware shows), 0/1 and bytes from the input file in order (0 at the end), "
     "the execution limit; written characters get into the output file exactly, printed ones to the standard output, a stop command stops the run after the writing instruction, a limit "
     "ends the runs after that many instructions, reset restarts the processor; a command takes exactly its number of parameters, surplus writes during an answer do no harm, after the "
     "last answer byte the next write is a new command, and other cells are plain memory. It does not matter how the cell and the files were given (-I or set hardware), whether they "
     "are changed meanwhile, or into which pieces the run is cut.",
     ["programs", "histories", "inputs"], "all sequences of writes and reads of the cell x file contents x cuts of the run x ways to set up",
     "The interface is a state machine driven byte by byte by the program; no stable test uses it.",
     ["src/core/sim.src/simif.cc", "src/core/sim.src/sim.cc", "docs/simif.html"],
     [dict(name="protocol state", where="src/core/sim.src/simif.cc cl_sif_command::read/write, cl_simulator_interface::read/write"), dict(name="commands", where="src/core/sim.src/simif.cc produce_answer")],
     observe=["bytes read from the cell", "output file", "stdout", "stop messages", "info hardware simif"],
     technique=PBT + "generated sequences of writes and reads of the cell in programs of 7 processors against a model of the protocol")

prop("C17", "A serial line carries exactly the bytes sent and the bytes of its file",
     "On the UARTs of the MCS-51 (all four modes, timer 1, timer 2 and fixed clock), the 6850 of the 6800 and 6809 (both of them), the STM8 and the 16550 of the Z80: "
     "every byte a program writes to a ready transmitter gets into the output file, exactly once, in order and unchanged; a program that reads the received data when told gets "
     "exactly the bytes of the input file in order, with line ends converted to the configured sequence (not at all when it is 0), none lost with flow control on; "
     "a byte takes the number of clocks that the mode, the divisor and the length of the frame define. It does not matter whether the files are given by -S or set later, "
     "into which pieces the execution is cut, or what is looked at meanwhile.",
     ["inputs", "programs", "histories"], "all data to send and receive x modes and divisors x line end settings x cuts of the execution",
     "Which byte gets lost or doubled depends on how instructions, divisor, file and polling meet; no stable test uses a serial line.",
     ["src/core/sim.src/serial_hw.cc", "src/sims/s51.src/serial.cc", "src/core/motorola.src/cia.cc", "src/sims/stm8.src/serial.cc", "src/core/sim.src/pc16550.cc", "src/core/utils.src/fio.cc"],
     [dict(name="input and line ends", where="src/core/sim.src/serial_hw.cc proc_not_in_menu, get_input"), dict(name="UARTs", where="serial.cc, cia.cc, pc16550.cc tick, write, read")],
     observe=["output file", "received bytes in memory", "clock counts"],
     technique=PBT + "generated data, line settings and cuts of the execution of polling programs against the contents of both files and the defined length of a frame")

prop("C18", "A VCD file holds every change of the recorded cells, and replay repeats it",
     "From start (or restart) to stop, a value change dump of a set of cells, bits and bit ranges holds, for each of them, the value at start and then exactly the writes "
     "to its cell (by instructions or commands), in order, each with the value of its bits and at the simulated time of the write within the resolution of the time scale, "
     "with names and widths as added; between pause and restart the values are unknown and nothing is recorded, and the file shows the pause with its length or the set limit; "
     "add, del, timescale, pausetime do what they say and two recordings do not disturb each other. Replaying a file sets each named variable (whole or bits) "
     "to each value at its time, counted from start and not while paused, shifted by starttime, changes nothing else, and break stops the run at the first instruction after a change.",
     ["inputs", "histories"], "all sequences of recorder commands, writes and instructions x cells and bit ranges x clocks x files to replay",
     "A recording depends on the whole history of writes and commands; no stable test compares a recording with what happened.",
     ["src/core/sim.src/vcd.cc", "src/core/sim.src/mem.cc", "src/core/sim.src/hw.cc", "src/core/sim.src/uc.cc"],
     [dict(name="recording", where="src/core/sim.src/vcd.cc report, set_cmd, add_var, del_var"), dict(name="replay", where="src/core/sim.src/vcd.cc parse_header, tick, read_word")],
     observe=["the VCD file", "memory contents", "simulated time"],
     technique=PBT + "stateful generation of recorder commands and writes against a model of the history, and of VCD files replayed against a model of their events")

prop("C23", "Interrupts are accepted, prioritised and returned from as documented",
     "On the MCS-51 (two levels of the 8052 and four levels with the PCA of the 89C51R), the 6800, 6801, 68HC11, 6809, 6502 and 65C02: "
     "a request is served after the first instruction at which it is pending, enabled, not masked and of a higher priority than the "
     "service in progress, and never otherwise; of several requests the one of the highest priority goes first. Serving pushes exactly the documented "
     "registers (the return address is that of the next instruction), sets the documented masks, clears exactly the request flags that hardware "
     "clears and continues at the vector; RETI/RTI ends the service and lets the lower levels in again; an instruction that waits (WAI, CWAI, idle mode) is "
     "ended by the request and its state is pushed just once. A request changes nothing else.",
     ["inputs", "histories", "programs"], "all sequences of instructions x requests at every point x enable, mask and priority registers x nesting of services x waiting states",
     "No stable test serves an interrupt; what is accepted depends on the whole history of requests, masks and nested services.",
     ["src/core/sim.src/uc.cc", "src/core/sim.src/itsrc.cc", "src/sims/s51.src/uc51.cc", "src/sims/s51.src/interrupt.cc", "src/core/motorola.src/m6800.cc", "src/sims/m6809.src/m6809.cc",
      "src/sims/mos6502.src/mos6502.cc"],
     [dict(name="interrupt acceptance", where="src/core/sim.src/uc.cc cl_uc::do_interrupt; s51.src/uc51.cc do_interrupt, accept_it; accept_it of m6800, m6809, mos6502, mos65c02"),
      dict(name="interrupt sources", where="src/core/sim.src/itsrc.cc; mk_hw_elements of the simulators")],
     observe=["registers and stack after every instruction", "request flags"],
     technique=PBT + "generated instruction and request histories against reference models of the interrupt systems on top of the instruction models",
     note="Peripherals do not run; requests are raised by setting the request flags. What CLI/TAP/PLP do to a pending request in the next cycle and the X mask of the 68HC11 are left open.")


isa("I01", "Z80", "z80", ["src/sims/z80.src/inst.cc", "src/sims/z80.src/inst_ed.cc", "src/sims/z80.src/inst_cb.cc",
    "src/sims/z80.src/inst_xd.cc", "src/sims/z80.src/inst_xxcb.cc", "src/sims/z80.src/z80.cc", "src/sims/z80.src/z80mac.h"],
    "ucsim_z80 -t Z80",
    extra="This includes the CB, ED, DD and FD prefixed instructions, the block instructions and the port "
          "instructions, and each takes the documented number of clock cycles; only the undocumented opcodes, HALT, the R register and flag bits 3 and 5 are left out.")

isa("I02", "8080/8085", "i8085", ["src/sims/i8085.src/ialu.cc", "src/sims/i8085.src/imove.cc", "src/sims/i8085.src/ibranch.cc",
    "src/sims/i8085.src/i8080.cc", "src/sims/i8085.src/i8085.cc", "src/sims/i8085.src/i8080cl.h", "src/sims/i8085.src/glob.cc"], "ucsim_i8085 -t 8080, 8085",
    extra="Each instruction takes the documented number of clock cycles. Only IN, OUT, HLT, EI, DI, RIM, SIM, the undocumented opcodes and the undocumented flag bits are left out.")

isa("I03", "MCS-51", "s51", ["src/sims/s51.src/uc51.cc", "src/sims/s51.src/arith.cc", "src/sims/s51.src/logic.cc", "src/sims/s51.src/mov.cc",
    "src/sims/s51.src/jmp.cc", "src/sims/s51.src/bit.cc"], "ucsim_51 -t 52",
    extra="Each instruction takes the documented number of clock cycles (12 per machine cycle). Only DIV by zero and special function registers of peripherals are left out.")

isa("I04", "6502/65C02/6510", "mos6502", ["src/sims/mos6502.src/mos6502.cc", "src/sims/mos6502.src/ialu.cc", "src/sims/mos6502.src/imove.cc", "src/sims/mos6502.src/ibranch.cc",
    "src/sims/mos6502.src/inst.cc", "src/sims/mos6502.src/mos65c02.cc", "src/sims/mos6502.src/mos65c02s.cc"], "ucsim_mos6502 -t 6502, 65C02, 65C02S, 6510, 7501, 8500, 8501, 8502",
    extra="The types with a port have its direction and data registers at addresses 0 and 1. Each instruction takes the documented number of clock cycles. Only WAI, STP, the unused opcodes, decimal arithmetic on invalid digits and JMP (xxFF) of the NMOS type are left out.")

isa("I05", "6800/6801", "m6800", ["src/core/motorola.src/m6800.cc", "src/core/motorola.src/ialu68.cc", "src/core/motorola.src/imove68.cc", "src/core/motorola.src/ibranch68.cc",
    "src/core/motorola.src/m6801.cc", "src/core/motorola.src/inst68.cc", "src/core/motorola.src/m6800cl.h"], "ucsim_m6800 -t 6800, 6801",
    extra="Each instruction takes the documented number of clock cycles. Only WAI, the undefined opcodes, V after DAA, N and V of CPX on the 6800, and accesses to the mapped peripherals are left out.")

isa("I06", "6809", "m6809", ["src/sims/m6809.src/m6809.cc", "src/sims/m6809.src/m6809cl.h"], "ucsim_m6809",
    extra="This includes both prefix pages and every indexed mode. Only CWAI, SYNC, the undefined opcodes, post bytes and register pairs, H after subtractions and shifts, V after DAA and SEX, accesses to the mapped peripherals and the numbers of clock cycles are left out.")

isa("I07", "68HC11", "m68hc11", ["src/core/motorola.src/m68hc11.cc", "src/core/motorola.src/m68hc11cl.h", "src/core/motorola.src/hc18.h", "src/core/motorola.src/wraps.cc", "src/core/motorola.src/m6800.cc",
    "src/core/motorola.src/ialu68.cc", "src/core/motorola.src/imove68.cc"], "ucsim_m68hc11",
    extra="This includes the instructions of all prefix pages, and each takes the documented number of clock cycles. Only TEST, STOP, WAI, the undefined opcodes, V after DAA, the S and X bits, remainders of undefined divisions and accesses to the mapped peripherals are left out.")

isa("I08", "68HC08/HCS08", "m68hc08", ["src/sims/m68hc08.src/inst.cc", "src/sims/m68hc08.src/m68hc08.cc", "src/sims/m68hc08.src/hc08mac.h"], "ucsim_m68hc08 -t HC08, HCS08, 9S08",
    extra="Only STOP, WAIT, BGND, BIL, BIH, the undefined opcodes, V after DAA, what DIV leaves after an overflow, and the registers and page switching of the 9S08 memory management are left out.")

isa("I09", "F8", "f8", ["src/sims/f8.src/ialu.cc", "src/sims/f8.src/imove.cc", "src/sims/f8.src/ibranch.cc", "src/sims/f8.src/f8.cc", "src/sims/f8.src/f8cl.h", "src/sims/f8.src/glob.cc"], "ucsim_f8",
    extra="The prefixes that swap the operands and those that select other accumulators are included, where the table of allowed prefixes permits them; only the clock cycles, TRAP, THRD, DAA, MSK, V after TSTW, N after SRLW, a swapped 16 bit subtraction with memory or 16 bit operation with another accumulator, displacements above 127 of the 16 bit (n,Y) forms, more than one accumulator prefix and writes outside the RAM are left out.")

isa("I10", "STM8", "stm8", ["src/sims/stm8.src/stm8.cc", "src/sims/stm8.src/inst.cc", "src/sims/stm8.src/stm8mac.h"], "ucsim_stm8 -t STM8S",
    extra="All prefixes and addressing modes in RAM and flash, also above the first 64K; only HALT, WFI, WFE, BREAK, JRIL, JRIH, what follows from a division by zero and the undefined opcodes are left out.")

isa("I11", "ST7", "st7", ["src/sims/st7.src/st7.cc", "src/sims/st7.src/inst.cc", "src/sims/st7.src/st7mac.h"], "ucsim_st7",
    extra="All addressing modes and prefixes are included; only TRAP, HALT, WFI, JRIL/JRIH, LD S,r and the clock cycles are left out.")

isa("I12", "AVR", "avr", ["src/sims/avr.src/arith_inst.cc", "src/sims/avr.src/logic_inst.cc", "src/sims/avr.src/bit_inst.cc", "src/sims/avr.src/move_inst.cc", "src/sims/avr.src/jump_inst.cc", "src/sims/avr.src/avr.cc"], "ucsim_avr",
    extra="Each instruction takes the documented number of clock cycles. Only LDS/STS cycles, SLEEP, the instructions of later cores that the simulator does not know (MOVW, MULS, MULSU, FMUL*, ELPM, SPM, LPM Rd) and the registers of the I/O ports are left out.")

isa("I13", "MCS-48", "i8048", ["src/sims/i8048.src/arith.cc", "src/sims/i8048.src/branch.cc", "src/sims/i8048.src/move.cc", "src/sims/i8048.src/i8048.cc", "src/sims/i8048.src/i8020cl.h", "src/sims/i8048.src/port.cc"], "ucsim_i8048 -t I8048, I8049, I8050, I8021",
    extra="The instructions of the ports, of the BUS, of the 8243 port expander, of the input pins and of the timer register are included, and the number of machine cycles of the 8048 family; starting the timer, enabling interrupts and conditional jumps over a page end are left out.")

isa("I14", "P1516/P2223", "p1516", ["src/sims/p1516.src/p1516.cc", "src/sims/p1516.src/p2223.cc", "src/sims/p1516.src/p1516cl.h"], "ucsim_p1516 -t P1516, P2223",
    extra="Every condition and, on the P2223, the register pointers updated before or after the access are included; only DIV, the clock cycles, the undefined operations, accesses to the peripherals' addresses and to the built-in monitor, a load that updates its own destination, special function registers other than the flags and values above 63 in the flags are left out.")

isa("I15", "PicoBlaze", "pblaze", ["src/sims/pblaze.src/inst.cc", "src/sims/pblaze.src/glob.cc", "src/sims/pblaze.src/pblaze.cc", "src/sims/pblaze.src/stack.cc", "src/sims/pblaze.src/inputport.cc"], "ucsim_pblaze -t KCPSM3, KCPSM6",
    extra="Both register banks, the input port, the values reported for the output ports and two clocks per instruction are included; only RETURNI, overflow of the call stack, jumps and scratchpad accesses outside the memories, and COMPARECY with an operand of 255 and a borrow are left out.")

isa("I16", "Padauk PDK13/14/15", "pdk", ["src/sims/pdk.src/pdk13.cc", "src/sims/pdk.src/pdk14.cc", "src/sims/pdk.src/pdk15.cc", "src/sims/pdk.src/inst.cc", "src/sims/pdk.src/pdk.cc", "src/sims/pdk.src/pdkcl.h"], "ucsim_pdk -t PDK13, PDK14, PDK15",
    extra="Only the Z flag after mov a,m and mov a,io, the C, AC and OV flags of nadd, reti, ldsptl/ldspth, ldtab and the power and interrupt control instructions are left out. Clock cycles are one per instruction and two for call, goto and idxm; those of returns, pcadd and taken skips are left open.")

isa("I17", "SM83 (LR35902/GB80)", "z80", ["src/sims/z80.src/inst_gb80.cc", "src/sims/z80.src/gb80.cc", "src/sims/z80.src/glob_gb80.cc", "src/sims/z80.src/inst.cc", "src/sims/z80.src/inst_cb.cc"], "ucsim_z80 -t LR35902, GB80",
    extra="Every instruction of the main and the CB table and its number of clock cycles are included; only STOP, HALT, the unused opcodes and the effect of DI and EI on interrupts are left out.")

isa("I18", "OISC/URISC/MISC16", "oisc", ["src/sims/oisc.src/oisc.cc", "src/sims/oisc.src/urisc.cc", "src/sims/oisc.src/misc16.cc", "src/sims/oisc.src/em.cc"], "ucsim_oisc -t OISC, URISC, MISC16, EM",
    extra="What an instruction does is decided by the addresses it moves data between, as listed in the address tables of the simulator. Only cells that the tables leave empty and the UART registers are left out.")

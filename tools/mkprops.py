#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the statements)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("C01", "Timed device events fire on time, exactly once, unless cancelled",
  "An event scheduled N cycles ahead runs exactly once, on exactly the Nth clock cycle after it was scheduled (immediately for N=0), with the device and arguments it was given, whatever other events are scheduled, cancelled or run before it, including by callbacks themselves. Cancelling removes exactly one pending event of that device and callback and neither delays, hastens, drops nor repeats any other event. If memory runs out, scheduling reports failure and leaves every pending event unaffected.",
  ["histories", "schedules", "fault_sequences"], "every interleaving of schedule, cancel and clock tick, from outside and from inside callbacks, with ties, with allocation failure at any point",
  "The unit tests use the queue only through a few devices with one or two pending events; cancel of a non-head event, re-entrant cancel, ties and allocation failure are never reached.",
  ["src/event.c", "src/event.h"], [("add_event delta list", "src/event.c"), ("cancel_event", "src/event.c"), ("advance", "src/event.c")],
  [("event_head", "delta-time ordered list of pending events", "src/event.c")], ["callback invocations"])

p("C02", "Tape images behave as a tape: what is written is what is read",
  "For any sequence of writes, tape marks, forward reads, backward reads, partial reads, rewinds, detaches and re-attaches, a tape image in SIMH, E11 or P7B format returns exactly the records and tape marks a physical tape would hold at that position, with their exact bytes, in order, and reports tape mark, load point and end of tape exactly where they are. The image file after detach decodes, by the format's own rules, to those records, and a tape without a write ring is never modified. This does not depend on record length, on alignment to the internal buffer, or on how much of a record was consumed before moving on.",
  ["histories", "inputs"], "every operation history, record length (1 byte to many buffers) and image format",
  "The only tape tests drive a few fixed channel programs with short records; buffer-boundary alignment, backward reads across buffers and overwrites in mid tape are never sampled.",
  ["src/device/tape.c", "src/device/tape.h"], [("32K window buffer with write-back", "src/device/tape.c tape_read_byte/tape_write_byte/tape_readbk_byte"), ("record header back-patching", "src/device/tape.c tape_write_prev/tape_finish_rec")],
  [("pos/pos_buff/len_buff/dirty", "window of the image held in memory", "src/device/tape.h")], ["return codes", "file contents"])

p("C03", "Storage faults never silently corrupt a tape image",
  "If the host file system fails, truncates or interrupts a read, write, seek or open at any moment, each tape operation either completes with the data it would have had without the fault or reports an error; the emulator neither hangs, crashes nor writes a host file it does not own. After a kill of the emulator at any moment, every record on the image that lies before the first position written since the last rewind or detach is still readable and unchanged. A failed attach leaves the drive not ready.",
  ["fault_sequences", "crash_points", "histories"], "every placement of EIO, ENOSPC, short transfer, EINTR, open failure, allocation failure and process kill in every tape operation history",
  "No test injects a failing or short system call, and none restarts from a partially written image.",
  ["src/device/tape.c"], [("flush before reposition", "src/device/tape.c"), ("tape_attach/tape_detach", "src/device/tape.c")], None, ["return codes", "simulated file contents"])

p("C04", "Card decks are conserved and round-trip through their file formats",
  "Reading a deck file puts into the hopper exactly the cards the file holds in its format, in order and column for column; saving a stacker and reading it back in the same format gives the same cards, for every format and every punch pattern that format can represent. Cards are neither lost, duplicated nor reordered by reading, stacking, blank-adding, emptying, renaming or saving decks in any sequence. A failing allocation, open, read or write is reported, never crashes the emulator, and leaves the cards already held intact.",
  ["histories", "inputs", "fault_sequences"], "every sequence of deck operations and card images, every file format, faults at every allocation and system call",
  "There is no test of card.c at all; devices tests only load a handful of text decks.",
  ["src/device/card.c", "src/device/card.h"], [("read_deck/_parse_card", "src/device/card.c"), ("save_deck/_card_out", "src/device/card.c"), ("stack_card/empty_cards/blank_deck", "src/device/card.c")], None, ["card contents", "saved files"])

p("C05", "Disk volumes survive: writes are durable and attach never destroys data",
  "Every byte a disk track is given is what a later rotation, seek back, detach and re-attach returns, on every cylinder, head and position of the volume, and no other byte of the volume changes. Attaching an existing volume never alters a byte of it unless initialisation was requested, even when the host fails the read of its header; a missing file is created as an empty formatted volume. A failing or short host read or write is never turned into silent replacement of other tracks' data, a crash or a hang.",
  ["histories", "fault_sequences", "crash_points"], "every seek, head, read, write, detach and attach history over each volume type, with host failures and kills at any call",
  "Tests drive one pack with one fixed history in one process; no host failure or re-attach is exercised.",
  ["src/device/dasd.c", "src/device/dasd.h"], [("cylinder buffer write-back", "src/device/dasd.c dasd_seek/dasd_detach"), ("attach/initialise", "src/device/dasd.c dasd_attach")], [("cbuf/dirty/fpos", "cached cylinder", "src/device/dasd.h")], ["volume file contents"])

p("C06", "2844/2314 disk channel programs act as count-key-data disks",
  "Whatever the timing of the channel, a channel program of seek, search, read and write commands on the disk control unit transfers exactly the bytes of the addressed record on the addressed cylinder and head, reports the status and sense the architecture defines, and leaves every other record unchanged. Every accepted command ends with channel end and device end exactly once within a bounded number of device steps.",
  ["programs", "schedules", "histories"], "every channel program over a formatted pack, under any channel response delay and interface disconnect",
  "The unit tests run fixed channel programs with one fixed response timing.",
  ["src/model2844/model2844.c", "src/device/dasd.c"], [("2844 microcode interpreter", "src/model2844/model2844.c"), ("bus_func tag handshake", "src/model2844/model2844.c")], None, ["channel bus", "volume file"])

p("C07", "2415 tape drives obey their channel commands and report exact status",
  "Under any channel response timing, each command accepted by the tape control moves exactly the selected unit's tape as that command requires, transfers exactly the record's bytes (or as many as the channel asks for), and presents channel end and device end, with tape mark, unit check and unit exception where they apply, exactly once per command within a bounded time. A channel that is late produces overrun in sense or a correct transfer, never silently wrong data. Units that are not ready or not present answer with unit check or not at all and disturb no other unit.",
  ["programs", "schedules", "histories"], "every sequence of tape commands over several units and image contents, under every channel service delay, stacking of status, halt and reset",
  "Tests use one fixed service timing and short fixed programs.",
  ["src/model2415/model2415.c", "src/device/tape.c"], [("model2415_dev tag machine", "src/model2415/model2415.c"), ("frame callbacks", "src/model2415/model2415.c")], None, ["channel bus", "tape image"])

p("C08", "1442 reads, punches and stacks every card exactly once",
  "Under any channel timing, feed, read and punch commands move cards through reader, punch and stacker so that every card that entered the hopper is in exactly one place, in order, with columns read as punched before and with exactly the columns the program punched afterwards, in the stacker the program selected. Data delivered to the channel equals the card's columns in the commanded mode, or overrun is reported in sense. End of deck, not ready and invalid punches are reported by unit check, unit exception or sense exactly when they occur.",
  ["programs", "schedules", "histories"], "every sequence of 1442 commands, decks, operator start/stop/end-of-file and channel delays",
  "Tests run fixed sequences on a couple of cards with prompt channel service.",
  ["src/model1442/model1442.c", "src/device/card.c"], [("model1442_dev", "src/model1442/model1442.c"), ("model1442_feed", "src/model1442/model1442.c")], None, ["channel bus", "stackers"])

p("C09", "1443 prints exactly the lines and carriage motion the program asked for",
  "Under any channel timing, the listing file holds, in order, each printed line's characters exactly as sent (blank padded, cut at the print width) and the line spacing, skipping and form feeds the commands and the carriage tape call for, each exactly once. Every accepted print or carriage command ends with channel end and device end exactly once in bounded time, and each line whose printing has been reported complete is in the file even if the emulator is then killed. Output failures of the host never hang or crash the printer.",
  ["programs", "schedules", "crash_points", "fault_sequences"], "every sequence of write, space and skip commands, carriage tapes, channel delays, and kills and output faults at any point",
  "Tests compare a few fixed lines and never a long mix of skips across forms, nor a crash.",
  ["src/model1443/model1443.c"], [("print_line", "src/model1443/model1443.c"), ("done_callback", "src/model1443/model1443.c")], None, ["channel bus", "listing file"])

p("C10", "The 1052 console relays every character once, in order, across reconnects",
  "Every character the computer types reaches the connected console client exactly once and in order, and every input line the client enters reaches the computer exactly once, in order, edited as typed, whatever the network splits, delays or coalesces. A client that connects, disconnects or resets at any moment never stops the console from accepting the next client, never crashes or hangs the emulator, and never has its characters delivered into any other file or connection. Terminal negotiation bytes never appear as input.",
  ["schedules", "fault_sequences", "histories"], "every interleaving of console thread, computer thread and network, with partial sends, resets, refused and repeated connections",
  "There is no test of the console: it needs a socket peer and two threads.",
  ["src/model1052/model1052.c"], [("console thread", "src/model1052/model1052.c"), ("in_buff/out_buff rings", "src/model1052/model1052.c")], None, ["socket byte streams", "channel/CPU side callbacks"])

p("C11", "Devices sharing a channel never interfere and never wedge it",
  "With any set of devices attached to one channel and any mix of overlapping operations, every start, test, halt and interruption reaches exactly the addressed device: only the selected device drives the bus, an address that no device owns is passed through, and each device's status is presented exactly once to the channel. Once the channel stops delaying, every outstanding operation completes and the channel becomes free within a bounded number of cycles. Data of one device never appears in another device's transfer.",
  ["schedules", "configurations", "histories"], "every device mix and order, operation mix and channel scheduling, including status stacking and polling races",
  "Tests attach one device at a time and start one operation at a time.",
  ["src/device/device.c", "src/model1442/model1442.c", "src/model1443/model1443.c", "src/model2415/model2415.c", "src/model2844/model2844.c"], [("select-out propagation", "each device's bus_func"), ("request-in polling", "each device's bus_func")], None, ["channel bus tags"])

p("C12", "2050 channel I/O moves exactly the right storage and interrupts once",
  "On the Model 50, Start I/O, Test I/O and Test Channel give the condition code and stored status the architecture defines, for devices on the multiplexer and the three selector channels used together. Each channel program of write, read, control and sense commands (with command chaining, transfer in channel and incorrect length, suppressed or not; skipping on a selector channel; read backward on the multiplexer channel) moves exactly the bytes its command words describe between device and exactly the storage they designate, and stores the command address, status and residual count that describe where it ended. Each operation's ending status, and each attention, is made available exactly once, by interruption or by instruction, whatever the device timing, masks and timer steps; an operation that a device carries out always ends. Storage outside the designated areas is unchanged.",
  ["programs", "schedules", "histories"], "every channel program and device behaviour, with device delays and interruption masks varied at any cycle",
  "Tests use one fake device with fixed timing and a processor that only waits.",
  ["src/model2050/cpu2050.c"], [("selector and multiplexor channel microcode", "src/model2050/cpu2050.c")], None, ["storage", "CSW", "PSW"])

p("C13", "2030 multiplexer channel I/O moves exactly the right storage and interrupts once",
  "On the Model 30, for devices on the multiplexer channel, Start I/O, Test I/O and Test Channel give the condition code and stored status the architecture defines. Each channel program of write, read and sense commands, or one that begins with a control command, with command chaining, transfer in channel and incorrect length (suppressed or not), moves exactly the bytes its command words describe between device and exactly the storage they designate, and stores the command address, status and residual count that describe where it ended. Each operation's ending status, and each attention, is made available exactly once, by interruption or by instruction, whatever the device timing, masks and timer steps, and when a device's request coincides with a selection by the program; an operation that a device carries out always ends. Storage outside the designated areas is unchanged.",
  ["programs", "schedules", "histories"], "every channel program and device behaviour, with device delays and interruption masks varied at any cycle",
  "Tests use fixed timing and a processor that only waits.",
  ["src/model2030/cpu2030.c"], [("multiplexor channel microcode", "src/model2030/cpu2030.c")], None, ["storage", "CSW", "PSW"])

p("C14", "2050 programs compute the same result whatever interrupts or I/O intervene",
  "On the Model 50, a System/360 program's registers, condition code and storage after each instruction are those the architecture defines, and they are the same whichever cycle external, timer or I/O interruptions and channel activity occur at. An interruption stores as old PSW exactly the point between two instructions (or the interrupted boundary the architecture allows) and returning to it continues the program as if nothing had happened.",
  ["programs", "schedules"], "every program of the simulated instruction subset, every operand value, and every cycle at which interruptions are raised",
  "Instruction tests run one instruction at a time with no interruption pending.",
  ["src/model2050/cpu2050.c", "src/model2050/model2050_ros.c"], [("microcode interpreter", "src/model2050/cpu2050.c")], None, ["registers, PSW, storage"])

p("C15", "2030 programs compute the same result whatever interrupts or I/O intervene",
  "On the Model 30, a System/360 program's registers, condition code and storage after each instruction are those the architecture defines, and they are the same whichever cycle external, timer or I/O interruptions and channel activity occur at. An interruption stores as old PSW exactly the point between two instructions and returning to it continues the program as if nothing had happened.",
  ["programs", "schedules"], "every program of the simulated instruction subset, every operand value, and every cycle at which interruptions are raised",
  "Instruction tests run one instruction at a time with no interruption pending.",
  ["src/model2030/cpu2030.c", "src/model2030/model2030_ros.c"], [("microcode interpreter", "src/model2030/cpu2030.c")], None, ["registers, PSW, storage"])

p("C16", "The simulator's threads pause, resume and shut down safely",
  "Whatever the scheduling of the processor thread, the timer and the display loop, simulated time never runs more than the pacing limit ahead of the timer, the processor always resumes after a timer tick, and power-off always ends the processor thread. No device, file, lock or window is used after it has been shut down, and shutdown completes in bounded time. Whatever an operator does at the windows, the emulator neither crashes nor stops, what is typed into a field is what the field holds and mounts, and I/O in progress is not disturbed by looking on; at power-off every record written by a completed command is in its file.",
  ["schedules", "fault_sequences"], "every interleaving of CPU thread, timer callback and event loop, with late timers, stalled threads, spurious wake-ups and a full event queue, and every sequence of operator actions",
  "The panel program is not part of the test build at all.",
  ["src/panel/panel.c", "src/panel/panel_device.c", "src/panel/text.c", "src/device/device.c"], [("process/run_sim/timer callback", "src/panel/panel.c"), ("create_device_window", "src/panel/panel_device.c"), ("system_shutdown", "src/device/device.c")], None, ["calls into CPU, devices and SDL", "media files after power off"])

p("C17", "A configuration file yields exactly the devices it names, or a clear error",
  "For any configuration text, loading either creates exactly the devices listed with exactly the addresses, models and options given, in order, or reports the failure; it never crashes, reads or writes outside its buffers, or hangs, whatever the text and wherever reading it fails. The result does not depend on how the host splits reads or on how lines end.",
  ["inputs", "fault_sequences"], "every configuration text, truncation point, read fault and allocation failure",
  "The configuration tests parse a dozen well-formed lines.",
  ["src/conf.c", "src/conf.h"], [("load_config/process_line", "src/conf.c")], None, ["created devices", "return code"])

p("C18", "System reset at any moment returns every device to a clean idle state",
  "If the channel resets its interface at any moment of any operation, each device becomes idle: it drives no tag, presents no status or interruption for the operation cut short, moves no further media on its behalf beyond the cycle in progress, and the next command behaves exactly as after power-on with the media where it stood.",
  ["crash_points", "histories", "schedules"], "every bus cycle of every operation as the moment of reset",
  "Tests never reset in the middle of an operation.",
  ["src/model1442/model1442.c", "src/model1443/model1443.c", "src/model2415/model2415.c", "src/model2844/model2844.c", "src/model1052/model1052.c"], [("reset on operational-out drop", "each device's bus_func")], None, ["channel bus"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")

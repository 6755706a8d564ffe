#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below and tools/props.json (claimed properties)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
claimed = json.load(open(os.path.join(HERE, "tools", "props.json")))
S, H, F, I, C, K = "schedules", "histories", "fault_sequences", "inputs", "configurations", "crash_points"
P = []


def prop(id, title, statement, over, text, why, files, mech, note=None, na=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    P.append((d, note, na))


prop("C01", "Commands reach the device: last one wins, nothing is invented",
     "Every accepted command for a writable control is put on the wire with exactly the commanded value, in order, and the newest command is "
     "delivered once the line works again within the configured retry time, unless the device refuses it for good. "
     "A command that the device has acknowledged is not sent again, an older command never follows a newer one, and nothing that neither a "
     "client commanded nor the configuration asks for is ever written to a device.",
     [S, H, F, I, C],
     "all sequences of commands (also several for one control at once), all register formats, word/byte orders, scales and bit fields, all "
     "line, device and port faults, and all interleavings of the MQTT thread with the port threads",
     "unit tests write a few values to a scripted port without concurrency; they never lose an answer, never queue commands while a port is "
     "closed and never let two commands race with a write in progress",
     ["src/serial_client.cpp", "src/register_handler.cpp", "src/write_channel_serial_client_task.cpp", "src/modbus_common.cpp",
      "src/serial_port_driver.cpp", "src/register_value.cpp", "src/common_utils.cpp"],
     [("latest-wins write slot with dirty flag", "TRegisterHandler::SetTextValue/Flush"),
      ("retry queue", "TSerialClient::WaitForPollAndFlush"), ("write frames", "modbus_common.cpp WriteRegister")])
prop("C02", "Controls show what the devices hold",
     "A published value is always one the device really held, and the daemon was told so by an intact answer (or an acknowledged write); values "
     "of a control never go back in time. Once the line and the device have been quiet for a while, every readable control shows the current "
     "value, converted as configured, without an error mark.",
     [S, H, F, I, C],
     "all register layouts (types, formats, orders, holes, overlaps, limits), all histories of value changes, all answers lost, late, damaged or "
     "duplicated, reconnects and reboots",
     "tests check a handful of registers against scripted frames; range building, damaged answers and late answers combine in ways they do not list",
     ["src/modbus_common.cpp", "src/modbus_base.cpp", "src/serial_client_register_poller.cpp", "src/serial_port_driver.cpp", "src/register.cpp",
      "src/port/serial_port.cpp", "src/port/tcp_port.cpp"],
     [("range reads", "TModbusRegisterRange::Add/ReadRange, ParseReadResponse"), ("poll loop", "TSerialClientRegisterPoller"),
      ("publication", "TDeviceChannel::UpdateValueAndError")])
prop("C03", "Failures are visible: read and write errors are shown and taken back",
     "While a device does not answer, every control of it that is polled gets the read error mark within a bounded time, and a command that "
     "could not be delivered marks its control with the write error. A mark is set only if something really failed, and it is taken back "
     "after the next success.",
     [S, H, F, C],
     "all outages of devices, lines, ports and gateways at any moment of any request, with any pattern of partial recoveries, and all device "
     "time-out settings",
     "tests set errors on single registers; they do not run outages against the scheduler, time-outs and reconnect logic in real time order",
     ["src/serial_client.cpp", "src/serial_client_register_poller.cpp", "src/serial_device.cpp", "src/serial_port_driver.cpp", "src/register.cpp"],
     [("error flags", "TRegister::SetError/ClearError"), ("connection state", "TSerialDevice::SetTransferResult"),
      ("error publication", "TDeviceChannel::UpdateError, OnDeviceConnectionStateChanged")])
prop("C04", "After a reconnect the setup section is written before anything is read",
     "Whenever the daemon starts talking to a device, at start or after the device was lost, all its configured setup registers are written, "
     "with the configured values, before its first register is polled, a command is sent to it, or it is declared connected; if writing one of them "
     "fails, the device is not polled and the whole section is tried again (a register that the device refuses for good is skipped). "
     "A device that comes back is polled again within a bounded time.",
     [S, H, F, C],
     "all outages and reboots at any point of the exchange, including in the middle of the setup section, several devices on one line, and "
     "all setup sections",
     "tests cover a setup section written once to a healthy device",
     ["src/serial_device.cpp", "src/devices/modbus_device.cpp", "src/modbus_common.cpp", "src/serial_client_device_access_handler.cpp",
      "src/serial_client_register_poller.cpp"],
     [("session preparation", "TSerialDevice::Prepare, WriteSetupRegisters"), ("reconnect schedule", "TSerialClientRegisterPoller disconnected devices")])
prop("C05", "Polling keeps its promises: nothing starves, limits hold",
     "Every polled register is read again and again with a bounded gap, whatever the mix of periods, slow devices, commands and RPC traffic; "
     "a register with a read period is read about that often when the line can carry it. The limits set for a register (read_rate_limit_ms), a device "
     "(min_request_interval) and all ports together (rate_limit) are not exceeded, and a lost device is asked more and more rarely.",
     [S, H, C],
     "all mixes of read periods, rate limits, slow lines and devices, numbers of devices and registers, disconnected neighbours, and commands",
     "tests step a fake clock through fixed schedules of two or three registers",
     ["src/poll_plan.h", "src/pollable_device.cpp", "src/serial_client_register_poller.cpp", "src/serial_client.cpp", "src/rate_limiter.h"],
     [("time balancer", "poll_plan.h TScheduler"), ("device queues", "TPollableDevice"), ("cycle", "TSerialClient::OpenPortCycle")])
prop("C06", "Fast Modbus events: nothing lost, nothing invented, polling takes over",
     "A register whose device reports changes by events shows every reported value and ends at the current one; an event packet is "
     "confirmed only if it was received intact and its records were taken over. When a device reboots, events are set up again, and "
     "when events cannot be read any more its controls show the read error or are polled again.",
     [S, H, F, C],
     "all sequences of changes, all loss, damage and collisions of event requests and answers, reboots, and any number of devices on the line",
     "tests replay fixed event packets and never lose a confirmation",
     ["src/serial_client_events_reader.cpp", "src/modbus_ext_common.cpp", "src/serial_client.cpp"],
     [("event requests and confirmations", "ModbusExt::ReadEvents, TEventConfirmationState"), ("enabling", "TSerialClientEventsReader::EnableEvents")])
prop("C07", "One master, one conversation: requests never overlap on a line",
     "On every line at most one request is outstanding: the daemon never begins to send while a request of its own is being sent or while an "
     "answer that came within the time-out is being received, it keeps the configured silence before each request, and it sends each "
     "request with the line settings of the port (or of the RPC call), restoring the port's own afterwards.",
     [S, H, F, C],
     "all mixes of polling, commands, events, RPC requests, scans, setup and firmware updates on one port, with any answers, all guard intervals "
     "and line settings",
     "tests have one thread and a scripted port; the frame times and the silence between frames are not modelled",
     ["src/port/serial_port.cpp", "src/port/port.cpp", "src/port/serial_port_settings.cpp", "src/serial_client.cpp", "src/rpc/rpc_port_driver.cpp"],
     [("silence before requests", "TPort::SleepSinceLastInteraction"), ("settings guard", "TSerialPortSettingsGuard"), ("task queue", "TSerialClient::AddTask")])
prop("C08", "Requests respect the device's limits; an absent register harms only itself",
     "No request asks for more registers than the device, the configuration or the protocol allows, nor spans a hole bigger than configured. "
     "Registers that a device does not have, or ranges it refuses to read, never keep its other registers from being read.",
     [S, H, I, C, F],
     "all register maps with missing and refused registers, all limits on count and holes, devices with and without continuous read, before "
     "and after reconnects",
     "tests check ranges for a few fixed maps",
     ["src/modbus_common.cpp", "src/devices/modbus_device.cpp", "src/serial_client_register_poller.cpp", "src/register.cpp"],
     [("range building", "TModbusRegisterRange::Add"), ("availability", "TRegister::SetAvailable/SetSupported"), ("holes", "SetSupportsHoles")])
prop("C09", "Writing part of a word leaves its neighbours alone",
     "Writing a control that is a bit field of one or more 16-bit words never changes the other bits of these words, as the device last "
     "reported them, nor any other register.",
     [S, H, F, I, C],
     "all field widths and offsets, several fields in one word, words changed by the device, by reboots and by other commands, commands before "
     "the first poll, and lost answers to reads and writes",
     "tests write one field into one known word",
     ["src/modbus_common.cpp", "src/devices/modbus_device.cpp"],
     [("read-modify-write with a register cache", "ComposeNumberWriteRequestWords, TRegisterCache")])
prop("C10", "Every RPC request gets exactly one answer, in time",
     "Each RPC request, valid or not, on any method, is answered exactly once, with a result or an error, within its time-out plus a bounded "
     "delay, and its result is the device's intact answer to that request; polling and commands go on afterwards as before.",
     [S, H, F, I],
     "all methods with all parameters, many requests at once on one or several ports, ports closed or failing, devices silent, and requests "
     "that expire in the queue",
     "tests call handlers directly with scripted ports; there are no concurrent requests, no queues and no time",
     ["src/rpc/rpc_port_handler.cpp", "src/rpc/rpc_port_load_raw_serial_client_task.cpp", "src/rpc/rpc_port_load_modbus_serial_client_task.cpp",
      "src/rpc/rpc_device_handler.cpp", "src/rpc/rpc_port_driver_list.cpp", "src/serial_client.cpp"],
     [("task queues", "TSerialClientTaskRunner, TSerialClientTaskExecutor"), ("expiry", "TRPCPortLoad*SerialClientTask::Run")])
prop("C11", "Suspended polling stays suspended, and resumes",
     "After polling of a device was suspended by request no poll request is sent to it until it is resumed or the suspension times out, and then "
     "polling goes on, with setup registers written first; other devices on the line are polled all the time.",
     [S, H, F, C],
     "all moments of suspend and resume relative to polls, outages, reconnects and time-outs, and concurrent requests",
     "tests suspend an idle healthy device once",
     ["src/serial_client_register_poller.cpp", "src/rpc/rpc_device_handler.cpp", "src/serial_client.cpp"],
     [("suspension list", "TSerialClientRegisterPoller::SuspendPoll/ResumePoll")])
prop("C12", "Parameters loaded and set by RPC are the device's own",
     "Reading a device's parameters by RPC returns what the device holds, never a value of an earlier time that the device may have lost since, and setting "
     "parameters writes exactly the requested ones or reports an error.",
     [S, H, F, I, C],
     "all parameter sets with conditions, all orders of load, set, reboots and direct writes, all losses of requests and answers",
     "tests check single calls against fixed templates",
     ["src/rpc/rpc_device_load_config_task.cpp", "src/rpc/rpc_device_load_task.cpp", "src/rpc/rpc_device_set_task.cpp", "src/rpc/rpc_device_parameters_cache.cpp"],
     [("parameters cache", "TRPCDeviceParametersCache"), ("register list reads", "ReadRegisterList")])
prop("C13", "A firmware update flashes the right image completely or reports failure",
     "A firmware update reports success only if the device took the whole image of the announced version; a failure is reported with an error, "
     "never leaves an update that is shown as running for ever, and a further update or restore is then possible.",
     [S, H, F],
     "all losses and damages of requests and answers in every phase of the exchange, power cuts, failed downloads, devices in the boot loader, "
     "component updates, and concurrent requests",
     "tests check parsers and the manager with mocked tasks",
     ["src/rpc/rpc_fw_update_handler.cpp", "src/rpc/rpc_fw_update_task.cpp", "src/rpc/rpc_fw_downloader.cpp", "src/rpc/rpc_fw_update_state.cpp"],
     [("flashing", "rpc_fw_update_task.cpp"), ("published state", "rpc_fw_update_state.cpp")])
prop("C14", "The template store survives crashes and disk errors",
     "After an upload or removal of a device template was confirmed it stays in effect, also after a restart; after a crash or a disk error at any "
     "point each template is either the old or the new one, complete, and templates that are not concerned are untouched.",
     [K, F, I, H],
     "every point at which the process can be killed or a system call can fail or write less during an upload or removal, and all names and contents",
     "tests upload to a healthy disk and do not crash",
     ["src/rpc/rpc_templates_handler.cpp", "src/templates_map.cpp", "src/file_utils.cpp"],
     [("temporary file and rename", "rpc_templates_handler.cpp"), ("index", "TTemplateMap")])
prop("C15", "The service starts, and stops when it is told to",
     "Whatever the state of ports and devices, the service starts and, on the termination signal, at any moment ends in a bounded time with exit code 0, "
     "leaves every port closed and sends nothing more.",
     [S, H, F, C],
     "all moments of the signal relative to start, polling, commands, RPC requests, firmware updates and outages, and all interleavings of the "
     "threads that are to be stopped",
     "tests do not run main and its threads",
     ["src/main.cpp", "src/serial_driver.cpp", "src/rpc/rpc_port_driver_list.cpp", "src/serial_client.cpp"],
     [("thread shutdown", "TMQTTSerialDriver::Stop, TSerialClientTaskExecutor destructor")])
prop("C16", "A lost port or gateway is opened again, and used again",
     "When a serial port disappears or a gateway closes, refuses or stalls connections, the daemon keeps trying to open it again, at a "
     "bounded rate and without leaking descriptors, and after it is back polling resumes within a bounded time. A connection that has shown no "
     "error is given up only when nobody has answered over it for the configured time and number of poll cycles.",
     [S, F, H, C],
     "all kinds and moments of port failures: unplugged, refused, reset, half-closed, black-holed, failing system calls, in any sequence",
     "tests use scripted ports that fail at one fixed call",
     ["src/port/serial_port.cpp", "src/port/tcp_port.cpp", "src/port/file_descriptor_port.cpp", "src/serial_client.cpp",
      "src/serial_port_open_close_logic.cpp"],
     [("open/close logic", "TPortOpenCloseLogic"), ("connection", "TTcpPort::OpenTcpPort")])
prop("C17", "No bytes from the line bring the service down",
     "Whatever bytes a device, a gateway or noise puts on a line, in answer to whatever request, the service neither crashes nor hangs nor reads "
     "outside its buffers, and goes on polling; a client's message does not bring it down either.",
     [I, S, F, H],
     "all byte strings with correct check sums in answer to all requests (polls, writes, events, scans, parameter reads, firmware updates), all "
     "client messages",
     "tests have fixed damaged frames for few functions",
     ["src/modbus_base.cpp", "src/modbus_common.cpp", "src/modbus_ext_common.cpp", "src/rpc/rpc_device_load_task.cpp", "src/rpc/rpc_fw_update_task.cpp"],
     [("response checks", "Modbus::ExtractResponseData, TModbusRTUTraits::ReadFrame"), ("event parsing", "ModbusExt")])
prop("C18", "A bus scan finds each device exactly once; setup changes what it was asked to",
     "A scan by RPC reports every device that answers on the line with its true serial number and address, and no other. Settings written by the "
     "set-up request go to the addressed device only, and success is reported only if the device acknowledged them.",
     [S, F, C],
     "all sets of devices with equal or different addresses and settings, and all losses and damages of scan requests and answers",
     "tests replay fixed scan answers",
     ["src/rpc/rpc_port_scan_serial_client_task.cpp", "src/rpc/rpc_port_setup_serial_client_task.cpp", "src/modbus_ext_common.cpp"],
     [("scan", "ModbusExt::Scan"), ("set-up", "TRPCPortSetupSerialClientTask")])
prop("C19", "Publications follow the configured policy",
     "A changed value or error mark is always published; an unchanged value is published exactly as the configured policy says; a "
     "press counter that restarts from zero after a device was lost is not published as a press, and a button or sporadic register is published on every event.",
     [S, H, C, F],
     "all sequences of values and errors under all publication policies and intervals, with reconnects",
     "tests check single transitions",
     ["src/serial_port_driver.cpp"],
     [("publication policy", "TDeviceChannel::UpdateValueAndError"), ("press counters", "ShouldNotPublishPressCounter")])
prop("C22", "A fault stays where it is: other devices and ports do not notice",
     "A silent, slow or faulty device, or a failed port, does not stop polling, commands or RPC requests on other ports at all, and delays other devices on "
     "its own line only by a bounded share of the time.",
     [S, F, H, C],
     "all combinations of healthy and faulty devices and ports, faults of all kinds that last for ever, and concurrent traffic",
     "tests run one port with one fault",
     ["src/serial_client.cpp", "src/serial_client_register_poller.cpp", "src/pollable_device.cpp", "src/serial_driver.cpp"],
     [("per-port threads", "TMQTTSerialDriver"), ("disconnected devices' schedule", "TSerialClientRegisterPoller")])

NOTE = ("Randomised search, not exhaustive: the property held in all simulated runs of the tier's seeds. The real service code runs under the "
        "simulator's threads, clock, lines and file faults; trusted are the simulator, the device model, the reference conversion model and the "
        "stand-in for libwbmqtt1. Every reported failure is repeated exactly from its replay file before it is reported.")
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for d, n, na in P:
        f.write(json.dumps(d) + "\n")
m = {"version": 1, "setup_cmd": "python3 tools/build.py",
     "hooks": {"guard": "WB_SERIAL_SIM", "enable": "no hooks are needed: the checks compile /repo/src unchanged and interpose libc and pthread "
               "(the guard is reserved and unused)", "source_commits": []},
     "checks": [], "not_applicable": [],
     "notes": "One simulator executable serves all checks; tools/check.py builds it from /repo's working tree (cached by content in build/)."}
for d, n, na in P:
    if d["id"] in claimed:
        m["checks"].append({"property": d["id"], "quick_cmd": "python3 tools/check.py %s quick" % d["id"],
                            "thorough_cmd": "python3 tools/check.py %s thorough" % d["id"],
                            "technique": "deterministic simulation with fault injection (seeded search over schedules and faults, history oracle)",
                            "level": "exploration", "level_note": NOTE + (" " + n if n else "")})
    else:
        m["not_applicable"].append({"property": d["id"], "reason": na or "not claimed yet: its generator and oracle are not finished"})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")

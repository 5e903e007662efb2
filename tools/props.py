#!/usr/bin/env python3
"""regenerates properties.jsonl (the property texts are edited here) and, with the list of claimed checks, MANIFEST.json"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S, A, C = "jqtrade/scheduler/", "jqtrade/account/", "jqtrade/common/"
P = []


def p(id, title, statement, over, text, tests, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": tests,
              "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "observe_at": list(observe), "hook_needed": None}})


p("C01", "Time expressions denote the documented instant of the day",
  "A daily task given as HH:MM:SS or HH:MM, as open, close, before_open (30 minutes before the open) or after_close (30 minutes after the close), or as open/close plus or minus an offset of hours, minutes and seconds (one or two digits each, every unit at most once) is due at exactly that instant of its day. Open and close are the start of the first and the end of the last trading period in force: the one given in the strategy's options, otherwise the configured one. An expression with an unknown base, a malformed offset or more than one sign is rejected with an error instead of being given some other time.",
  ["inputs", "configurations"],
  "every day, every expression of the documented grammar, every trading period of times of day, and every expression outside the grammar that has no colon",
  "the tests parse a handful of expressions with the default trading period; the property is over all expressions and periods",
  [S + "event_source.py", S + "strategy.py"],
  [("time expression parser", S + "event_source.py TimeExprParser.parse/_parse_offset"), ("placing an expression on a day", S + "event_source.py EventSource.add_event/expr_to_time"), ("aliases", S + "strategy.py Strategy.TIME_DICT, run_daily")],
  observe=["EventSource.get_next_event", "TimeExprParser.parse"])

p("C02", "A daily task is generated exactly once for every day of its window",
  "For every daily task of a schedule and every day from the start day on, exactly one event is produced, at the task's time of that day, if this time is not before the schedule's start and not after its end, and none otherwise. Events come out in order of time within a day and day by day, without a gap or a repetition, also when the process runs past the number of days generated in advance (EVENT_DAYS_COUNT; a historical start without an end covers this number of days and no more). Peeking at the next event neither consumes nor changes it.",
  ["histories", "configurations"],
  "every set of daily tasks, every start and end, every number of events consumed and every calendar day at which the next batch of days is generated",
  "tests look at the first few events of single schedules; days beyond the first batch are never reached",
  [S + "event_source.py", S + "config.py"],
  [("generation of days", S + "event_source.py EventSource._get_days"), ("generation of events", S + "event_source.py EventSource.gen_events/add_daily_events/add_event"), ("window", S + "event_source.py EventSource.setup")],
  [("_days, _events, _last_day", "days still to be expanded, events of the current day, last day expanded", S + "event_source.py EventSource.__init__")],
  ["EventSource.peek_next_event", "EventSource.get_next_event"])

p("C03", "every_minute runs at each minute of each trading period and no other time",
  "A task scheduled with every_minute is due at the start of every trading period in force and every full minute after it up to and including the period's end, and at no other time. A period that is not a pair, or whose bounds are not times of day, is refused.",
  ["configurations", "inputs"],
  "every list of trading periods (given by option or configuration), every start and end time of day including seconds, and every minute of the day",
  "tests use the default periods and look at a few minutes",
  [S + "strategy.py"],
  [("every_minute expansion", S + "strategy.py Strategy.schedule")],
  observe=["events of the scheduled source"])

p("C04", "Due work runs by time, then priority, then order of submission",
  "Work waiting in the loop is taken out by due time; of work due at the same time the one with higher priority goes first; of work with equal time and priority the one submitted first goes first. Taking the first item removes that item and nothing else, looking at it removes nothing, and an empty queue reports that it is empty.",
  ["histories", "inputs"],
  "every history of submissions and removals, every due time and priority",
  "tests push a few messages; the order must hold for every content of the queue",
  [S + "queue.py", S + "message.py"],
  [("sort key", S + "message.py Message.sort_key"), ("heap", S + "queue.py PriorityQueue.push/pop/top")],
  [("_queue", "heap of (key, item)", S + "queue.py PriorityQueue")],
  ["EventLoop.run", "ThreadSafeQueue.pop"])

p("C05", "No task starts early, none that is due is lost or run twice",
  "A submitted callback is never started before its due time by the system clock, is started at most once, and is started once the clock has reached its due time unless the loop was stopped before. While it runs, the strategy's logical time is its due time. The loop stays alive, waiting exactly until the next due time, as long as work is waiting, and ends when none is left or an exit condition holds for the next due time.",
  ["schedules", "histories"],
  "every queue content, every clock reading at each step, every early or late wake-up of the loop, and callbacks that submit more work",
  "tests run a few real-time schedules with due times in the past or a second ahead",
  [S + "loop.py"],
  [("dispatch loop", S + "loop.py EventLoop.check_queue/handle_message"), ("deferred work", S + "loop.py EventLoop.defer/push_message")],
  [("_strategy_time", "due time of the message being handled", S + "loop.py")],
  ["EventLoop.run", "context.strategy_dt"])

p("C06", "Conversions between dates and loop time are exact to the millisecond",
  "Converting a local date and time to the loop's milliseconds and back gives the same date and time truncated to the millisecond, and converting milliseconds to a date and back gives the same number. The conversion preserves order: a later date never becomes an earlier number.",
  ["inputs"],
  "every date and time with microseconds, every millisecond count since 1970",
  "tests use whole seconds only",
  [C + "utils.py"],
  [("conversions", C + "utils.py dt_to_milliseconds/milliseconds_to_dt")],
  observe=["dt_to_milliseconds", "milliseconds_to_dt", "context.strategy_dt"])

p("C07", "A failing task or a stop request ends the loop without starting other tasks",
  "When a task raises an error, no task is started after it and the run of the loop ends by raising that error. When a stop is requested, by the program, by SIGTERM or by SIGINT, the task in progress is completed, no further task is started, and the run of the loop ends normally.",
  ["fault_sequences", "histories"],
  "every queue content, every position of the failing task or of the stop request, every kind of error",
  "tests stop a loop once and raise one error",
  [S + "loop.py"],
  [("error capture", S + "loop.py EventLoop.handle_message/run"), ("stop", S + "loop.py EventLoop.stop/handle_signal/setup")],
  [("_stop_requested, _exception", "loop is to end, with which error", S + "loop.py")],
  ["EventLoop.run"])

p("C08", "An event reaches exactly its subscribers, by priority",
  "Emitting an event calls every callback registered for its class or a base class of it, once per registration and with that event, and no other callback. The callbacks of one class are called in descending priority, those of equal priority in order of registration, and the results are returned in calling order. After unregistering, a callback is no longer called for that class, with whichever priorities it was registered, while all others still are.",
  ["histories", "inputs"],
  "every set of registrations with any priorities, every event class hierarchy, every sequence of registering and unregistering",
  "tests register two or three callbacks",
  [S + "bus.py", S + "event.py"],
  [("subscription table", S + "bus.py EventBus.register/unregister/emit"), ("event classes", S + "event.py create_event_class")],
  [("_subscribes", "class -> priority -> callbacks", S + "bus.py")],
  ["EventBus.emit"])

p("C09", "Each scheduled source keeps exactly one wake-up, at its next event",
  "Scheduling a source submits one wake-up for its earliest event, at that event's time and with that event's priority; when the wake-up runs it dispatches that event once and submits the next one in the same way, until the source has no more events. After a source has been unscheduled its pending wake-up dispatches nothing and submits nothing, and other sources are not affected.",
  ["histories", "schedules"],
  "every source with any events, any number of sources, every interleaving of wake-ups and unscheduling",
  "tests drive one or two sources for a few events",
  [S + "event_source.py"],
  [("wake-up chain", S + "event_source.py EventSourceScheduler.schedule/unschedule")],
  [("_event_sources", "schedule id -> source", S + "event_source.py")],
  ["EventLoop.push_message", "EventBus.emit"])

p("C10", "Tasks and options can be set only during initialisation and take effect as given",
  "run_daily and set_options succeed while process_initialize runs and are refused with an error, without any effect, at any other time. Every function passed to run_daily is itself what is called, with the strategy's context, at each of its times, in registration order with other tasks; a thing that cannot be called is refused. Options are stored with switches as booleans, the sync interval as a number and the market and sync periods as pairs of times of day, a malformed period being refused; a strategy without process_initialize is refused.",
  ["programs", "configurations", "histories"],
  "every strategy program calling run_daily/set_options with any functions, times and options at any moment",
  "tests load a few strategy files",
  [S + "strategy.py", S + "api.py"],
  [("initialisation gate", S + "strategy.py Strategy.setup/run_daily/set_options"), ("registration", S + "strategy.py Strategy.schedule/wrap_user_callback")],
  [("_is_scheduler_allowed", "process_initialize is running", S + "strategy.py")],
  ["strategy functions called by the bus", "strategy options"])

p("C11", "Custom configuration overrides exactly the named settings",
  "Loading a custom configuration file sets, for each SCHEDULER_ name in it, the scheduler setting of that name and, for each ACCOUNT_ name, the account setting of that name, to the given value. Every other setting keeps its value, and names without these prefixes change nothing.",
  ["configurations"],
  "every configuration file: any names and values",
  "tests load one file with two settings",
  [S + "config.py", A + "config.py"],
  [("loading", S + "config.py setup_scheduler_config/_load_config; " + A + "config.py setup_account_config/_load_config")],
  observe=["get_config()"])

p("C12", "Task command lines and environment options are read faithfully",
  "From the command line of a running task, its name, code path, output path, environment string and debug flag are reported exactly as start_task understood them, in every spelling and order start_task accepts, and a missing option as absent. An environment option of name=value entries separated by semicolons yields exactly those variables, names and values trimmed of surrounding blanks and a value possibly containing '='; an entry without '=' is refused.",
  ["inputs"],
  "every command line start_task accepts, every environment string",
  "tests parse two or three command lines and one environment",
  [S + "utils.py", "jqtrade/__main__.py"],
  [("command line", S + "utils.py parse_task_info"), ("environment", S + "utils.py parse_env")],
  observe=["get_tasks output", "os.environ of the task"])

p("C13", "stop_task signals exactly the selected running tasks",
  "stop_task signals every running task if all are selected, otherwise the task with the given pid, otherwise every task whose name equals the given name, and never any other process; with none of the three it is refused and signals nothing. The signal is SIGTERM, or a kill when forced. A process counts as a running task exactly if its command line is a start_task command of jqtrade and it is not the parent of another such process.",
  ["inputs", "histories"],
  "every process table (any commands, parents, vanishing or unreadable processes) and every combination of options",
  "tests start one task and stop it",
  ["jqtrade/__main__.py", S + "utils.py"],
  [("selection", "jqtrade/__main__.py stop_task"), ("task detection", S + "utils.py get_activate_task_process/_is_task_cmd")],
  observe=["signals sent to processes"])

p("C14", "No second task with the name of a running task is started",
  "Starting a task whose name equals that of a running task is refused before anything of it is set up, where the starting process itself and its parent do not count; a name no running task has is accepted. A missing strategy file or configuration file is refused as well.",
  ["histories", "inputs"],
  "every process table and every task name",
  "tests start one duplicate",
  [S + "runner.py", S + "utils.py"],
  [("duplicate check", S + "runner.py _exist_repeated_task, TaskRunner.__init__")],
  observe=["TaskRunner construction"])

p("C15", "Only well-formed orders reach the trade gate",
  "order() hands an order to the account only if the code is a number of digits followed by .XSHE or .XSHG, the amount is a non-zero integer, the style is a market or limit style and the side is long or short; a missing style means a market order and a missing side means long. Anything else is refused with an error and nothing is submitted.",
  ["inputs"],
  "every value of code, amount, style and side",
  "tests try one good and a few bad values",
  [A + "api.py", A + "order.py"],
  [("validation", A + "api.py order/_check_code/_check_amount/_check_style/_check_side")],
  observe=["Account.order calls"])

p("C16", "An accepted order is submitted once, as requested, under a fresh id",
  "For each order, the trade gate receives exactly one submission whose code, quantity (absolute amount), direction (open for positive, close for negative amounts), price, style and side are the requested ones, in status new and with an id that no order in the book has; that id is returned and the order is in the book under it. If the gate raises, the caller gets no id and the order is left in the book as rejected with the error's message, never as a live order.",
  ["inputs", "fault_sequences", "histories"],
  "every order, every order book, every unique-number outcome, every failure of the gate",
  "tests submit single orders to a working gate",
  [A + "account.py", A + "api.py", A + "order.py"],
  [("submission", A + "account.py Account.order"), ("order object", A + "order.py Order.__init__/on_rejected")],
  [("_orders", "order id -> order", A + "account.py")],
  ["trade gate order()", "get_orders()"])

p("C17", "Broker order and cancel lines say exactly what was ordered",
  "The line written to the broker's order file for an order carries the time, the order id, the counter type, the account, the security in the broker's notation, buy for opening and sell for closing, the quantity, the algorithm, and the price type: P6 for a market buy, P7 for a market sell, AT with the limit price as both bounds for a limit order. A cancel line carries the time and the order id. Orders without an account, of an unsupported account type, short or with an unknown exchange are refused and write nothing.",
  ["inputs", "configurations"],
  "every order (any code, quantity, price, direction, id) and every gate option",
  "tests write two or three lines",
  [A + "trade_gate.py"],
  [("order line", A + "trade_gate.py AnXinDMATradeGate.order/_encode_security"), ("cancel line", A + "trade_gate.py AnXinDMATradeGate.cancel_order")],
  observe=["broker order and cancel files"])

p("C18", "Broker files are appended whole lines under the file lock, header once",
  "Every line is appended to the broker's order or cancel file of the current date while the file's exclusive lock is held, after everything already in the file and flushed before the lock is released, preceded by the header exactly when the file is empty at that moment. While another process holds the lock the write is retried at the configured interval, and if the lock stays taken for the configured time the write fails with a timeout and leaves the file as it was.",
  ["schedules", "histories", "fault_sequences"],
  "every interleaving with other writers of the same file, every time the lock is taken for, every content of the file",
  "tests write from one process to a free file",
  [A + "trade_gate.py"],
  [("locked append", A + "trade_gate.py AnXinDMATradeGate._write")],
  observe=["broker order and cancel files", "file lock"])

p("C19", "The day's orders survive a restart",
  "After a submission or a synchronisation the gate's orders of the day are on disk, and a new process with the same task name on the same day starts with exactly these orders, every field as it was. The stored file is replaced as a whole, so that at any moment either the previous or the new state is there in full, and orders stored under another task name or day are not loaded; an unreadable store is reported and ignored.",
  ["crash_points", "histories"],
  "every set of orders, a crash at every point of saving, every task name and day",
  "tests save and load one or two orders",
  [A + "trade_gate.py", A + "order.py"],
  [("saving", A + "trade_gate.py AnXinDMATradeGate._save_orders"), ("loading", A + "trade_gate.py AnXinDMATradeGate._load_orders/setup"), ("serialisation", A + "order.py Order.json")],
  observe=["order cache file", "gate.sync_orders after restart"])

p("C20", "After a sync each own order shows its last complete broker record",
  "After the gate has read the broker's order file, each order of this task shows the status, fill, cancel and price figures of the last complete record for it in the current date's file, however the file grew between reads: in several steps, with half-written last lines, blank or foreign lines, malformed lines (skipped if so configured) or a change of date. A failed submission reported in the result file turns that order into rejected with the broker's message. Records of other tasks' orders change nothing.",
  ["histories", "schedules", "inputs"],
  "every content of the broker files, every way it is cut into successive reads, every number of reads",
  "tests read complete files once or twice",
  [A + "trade_gate.py"],
  [("incremental reading", A + "trade_gate.py AnXinDMATradeGate.sync_orders/_decode_line"), ("record to order", A + "trade_gate.py AnXinDMATradeGate._update_order/_parse_status")],
  [("_order_update_offset, _order_result_offset, _offset_date", "position up to which the date's files have been read", A + "trade_gate.py")],
  ["gate.sync_orders result"])

p("C21", "The account's order book mirrors the trade gate",
  "After a successful order sync, every order reported by the gate is in the account's book under its id with the reported status, broker number, filled and cancelled quantities, turnover, average cost and commission (an order new to the book with every reported field), and every other order of the book is unchanged. An error of the gate changes nothing and does not escape. An order handed to the user is a snapshot that later syncs do not alter.",
  ["histories", "inputs", "fault_sequences"],
  "every order book and every report (any number of orders, any statuses and field values)",
  "tests sync two or three orders",
  [A + "account.py", A + "order.py"],
  [("merge", A + "account.py Account.sync_orders"), ("order comparison", A + "order.py Order.__eq__"), ("parsing a report", A + "order.py Order.load")],
  [("_orders", "order id -> order", A + "account.py")],
  ["get_orders()", "account.orders"])

p("C22", "Cash and positions are those of the last successful gate report",
  "After a balance sync, the total asset, available and locked cash are the reported values, zero included, and the long and short positions are exactly the reported ones, each with its reported fields and long if no side is given; positions no longer reported are gone. If the gate fails or the report lacks cash or positions, everything stays as it was and no error escapes.",
  ["histories", "inputs", "fault_sequences"],
  "every previous state and every report, any number of positions, any failure of the gate",
  "tests sync one report with non-zero figures",
  [A + "account.py", A + "position.py"],
  [("balance sync", A + "account.py Account.sync_balance")],
  [("_long_positions, _short_positions, cash figures", "last report", A + "account.py")],
  ["context.portfolio"])

p("C23", "The broker's balance files are read faithfully",
  "The reported cash figures are those of the row of the configured account that has no exchange, with locked cash the current minus the enabled balance, rounded to four digits; the positions are the rows of that account with a non-zero quantity, with the security in the platform's notation and quantities, cost, price and value of the row. A missing file, an incomplete file, a balance file without that row (an empty one, for instance) or a missing account number is an error, never a partial report.",
  ["inputs", "fault_sequences"],
  "every table of rows of any accounts, exchanges and figures",
  "tests read one file",
  [A + "trade_gate.py"],
  [("balance files", A + "trade_gate.py AnXinDMATradeGate.sync_balance/_read_csv"), ("notation", A + "trade_gate.py AnXinDMATradeGate._decode_security/_encode_security")],
  observe=["gate.sync_balance result"])

p("C24", "get_orders returns exactly the orders matching all given filters",
  "get_orders returns, keyed by order id, exactly the orders of the book that match every given condition: the id, the code, and the status (given by name or as a status value); without conditions it returns all. A malformed code or an unknown status is refused with an error.",
  ["inputs", "histories"],
  "every order book and every combination of conditions",
  "tests query books of two or three orders",
  [A + "api.py"],
  [("filters", A + "api.py get_orders")],
  observe=["get_orders()"])

p("C25", "A submitted closing order lowers what can still be closed",
  "After a closing order has been submitted, the closeable amount of the position with that code and side is lower by the ordered amount, but never below zero, and what it was lowered by is locked. No other position, no other field and no position at all for an opening, failed or unknown-code order is changed.",
  ["inputs", "histories"],
  "every set of positions and every sequence of orders",
  "tests close one position once",
  [A + "account.py", A + "position.py"],
  [("adjustment", A + "account.py Account.on_order_created; " + A + "position.py Position.on_order_created")],
  [("_available_amount", "closeable amount", A + "position.py")],
  ["context.portfolio.long_positions"])

p("C26", "The user's views show the account's figures, unknown codes as empty",
  "The portfolio's cash and asset figures, the long and short positions and each field of a position or order seen by the user equal the account's current ones; the portfolio's position value is the sum over the long positions. Asking the positions for a code not held gives a position with that code and side and zero amounts, without adding it.",
  ["inputs", "histories"],
  "every account content and every code asked for",
  "tests look at one position",
  [A + "portfolio.py", A + "api.py", A + "position.py"],
  [("views", A + "portfolio.py Portfolio; " + A + "api.py UserOrder/UserPosition/UserPositionDict")],
  observe=["context.portfolio", "get_orders()"])

p("C27", "Batch calls treat each entry on its own, one result per entry",
  "A batch submission returns a list with one entry per given order, in the same order: the id of the order if it was submitted, otherwise nothing; each entry is submitted with its own code, amount, style and side exactly as a single order would be, and an invalid or failing entry never affects the others. A batch cancel cancels each given order once, in order.",
  ["inputs", "fault_sequences"],
  "every list of entries, any of them incomplete, invalid or failing",
  "tests submit one batch of two",
  [A + "api.py"],
  [("batches", A + "api.py batch_submit_orders/batch_cancel_orders")],
  observe=["batch_submit_orders result", "trade gate calls"])

p("C28", "The account interface is available exactly when the account is in use",
  "If the strategy's options switch the account off, every access to account, trade gate or portfolio and every order, cancel, query and sync call that needs the account is refused with an error (a batch submission reports its entries as not submitted) and nothing is submitted; if they switch it on, the configured trade gate is created, set up with the options before first use and used. An account without an account number, or without a configured trade gate, is refused.",
  ["configurations", "programs"],
  "every option set and configuration, every interface call",
  "tests use one configuration with the account on",
  [S + "context.py", S + "strategy.py", A + "api.py"],
  [("gate", S + "context.py Context.account/trade_gate/portfolio"), ("set-up", S + "strategy.py Strategy.set_options/setup_account")],
  [("_use_account", "account in use", S + "context.py")],
  ["account interface calls"])

p("C29", "Retries: at most the configured number, first success or last error",
  "A retried call is made once and then again after each failure, waiting the configured interval between attempts, until it succeeds or the configured number of retries is used up, and is given the same arguments each time. The result of the first success is returned; if all attempts fail, the last error is raised; an error the retry condition refuses is raised at once.",
  ["fault_sequences", "configurations"],
  "every number of retries, every sequence of failures, every condition",
  "tests fail once or twice",
  [C + "utils.py"],
  [("retry", C + "utils.py simple_retry")],
  observe=["calls of the retried function"])

p("C30", "The account is synchronised at the configured interval in the configured periods",
  "With syncing enabled, balance and orders (whichever is enabled) are synchronised once during set-up and then every sync interval: over the whole day from midnight if no sync period is set, otherwise from the start of each sync period up to its end (each time truncated to the second). A sync is run ahead of other work due at the same time, and neither kind is synchronised if it is disabled.",
  ["configurations", "inputs"],
  "every interval of a millisecond or more, every list of sync periods, every moment of start-up and both switches",
  "tests use one interval without periods",
  [A + "account.py"],
  [("sync timer", A + "account.py Account.setup/_setup_sync_timer")],
  observe=["trade gate sync calls", "events of the sync source"])

p("C31", "Cancel requests reach the gate exactly for orders in the book",
  "Cancelling an order of the account's book passes exactly one cancel request with that order's id to the trade gate; cancelling an id that is not in the book passes none. An error of the gate while cancelling does not escape, and cancelling never changes the order book.",
  ["inputs", "histories", "fault_sequences"],
  "every order book, every id (given as text or number) and every failure of the gate",
  "tests cancel one existing order",
  [A + "account.py", A + "api.py"],
  [("cancel", A + "account.py Account.cancel_order; " + A + "api.py cancel_order")],
  observe=["trade gate cancel_order()"])

p("C32", "Strategy output goes to the task's output file",
  "What a strategy prints goes, in full, in order and at once, to the end of the task's output file if there is one, and otherwise to the standard output; a print that names its own file goes there and nowhere else.",
  ["inputs", "histories"],
  "every sequence of prints with any arguments and options, with and without an output file",
  "tests print one line",
  [S + "api.py"],
  [("print", S + "api.py strategy_print")],
  observe=["task output file", "standard output"])

p("C33", "The context carries the parts and times it was given",
  "A strategy's context reports the current time from the loop's clock and the logical time of the work being run, both as local dates exact to the millisecond, and no logical time before any work has run. Using the context before one has been created is refused, and the latest created one is the one in use.",
  ["histories", "inputs"],
  "every clock reading and every sequence of work",
  "tests read the times once",
  [S + "context.py", S + "loop.py", S + "api.py"],
  [("times", S + "loop.py EventLoop.current_dt/strategy_dt; " + S + "context.py Context; " + S + "api.py UserContext")],
  observe=["context.current_dt", "context.strategy_dt"])


NA = {}


def claimed():
    d = os.path.join(HERE, "contracts")
    return sorted(x[:-3].upper() for x in os.listdir(d) if x[0] == "c" and x[1:-3].isdigit() and x.endswith(".py"))


NOTE = ("Every obligation generated from the current source of the functions this property depends on is discharged by z3/cvc5 "
        "for all inputs (loops by inductive invariants, callees by contract or by their own current body); library behaviour is "
        "assumed as listed in the evidence file's assumptions; a concrete run of the real code on generated inputs accompanies "
        "the proof and supplies failing inputs.")
NOTES = {}

if __name__ == "__main__":
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["id"]
            f.write(json.dumps(x, ensure_ascii=False) + "\n")
    cl = claimed()
    ids = [x["id"] for x in P]
    assert set(cl) <= set(ids), set(cl) - set(ids)
    checks = []
    for i in cl:
        checks.append({"property": i, "quick_cmd": "python3-vt run.py %s --tier quick" % i,
                       "thorough_cmd": "python3-vt run.py %s --tier thorough" % i,
                       "technique": "contract-based deductive verification (symbolic execution of the real functions, obligations discharged by z3/cvc5)",
                       "level": "proof", "level_note": NOTES.get(i, NOTE)})
    m = {"version": 1, "setup_cmd": "python3-vt -m pv.selftest", "checks": checks,
         "not_applicable": [{"property": i, "reason": NA.get(i, "no check built yet")} for i in ids if i not in cl],
         "notes": "see DESIGN.md"}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")
    print(len(P), "properties,", len(cl), "claimed")

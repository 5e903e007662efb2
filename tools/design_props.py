D = {
"C01": ("`EventSource.daily -> expr_to_time -> TimeExprParser.parse/_parse_offset -> gen_events -> get_next_event`, driven through `Strategy.setup` with a task of unknown expression: clock times of every accepted spelling (digits symbolic), the named bases, base plus/minus every combination and order of one- or two-digit units, with periods of any length (any number of them) given by options or configuration as times or text. Postcondition: the event's time is the base's second of the day plus/minus the offset, of the same day's date arithmetic; unknown base, malformed offset, double sign: an error.",
        "strings are split symbolically, so the digits, the bases and the periods are all universally quantified; tests check some six expressions."),
"C02": ("`gen_events`, `_get_days`, `_reset_events_if_needed`, `get_next_event`: any number of daily tasks, any start, end, clock and EVENT_DAYS_COUNT; representation invariant of a source (what is generated = exactly the days up to the horizon, waiting = sorted remainder), established by the first generation and preserved by every `get_next_event`, whatever the clock says then.",
        "the history of any number of extensions is covered by induction over the invariant."),
"C03": ("`every_minute` through `Strategy.setup` on a symbolic grid of minutes: any number of periods, each any pair of times; an arbitrary instant is an event if and only if it is on the grid; number of events of a period of k minutes is k+1.",
        "all periods and all minutes at once instead of the one default period."),
"C04": ("`Message.sort_key` orders by (time, -priority, submission) strictly; `PriorityQueue/ThreadSafeQueue.push/pop/top/empty` on a heap of unknown content (heapq: least item, multiset semantics assumed).",
        "any queue content; tests push three messages."),
"C05": ("`EventLoop.check_queue/check_exit/handle_message/defer` (one pass from an arbitrary state satisfying the loop's invariant, `contracts/loop.py`), `push_message`, `run`: what is started, when, with which strategy time, which timer is armed. A trace of ghost events carries the order.",
        "every pass from every state = every run of any length; timers and clock readings are arbitrary."),
"C06": ("`dt_to_milliseconds`, `milliseconds_to_dt`: round trips and monotonicity over all microseconds (floats as reals plus the rounding the code performs).",
        "three integer lemmas instead of three dates. The runtime companion covers IEEE effects."),
"C07": ("`EventLoop.check_queue`, `stop`, `handle_signal`, `run`, `EventBus.emit`, `Scheduler` wake-up and `wrap_user_callback`: after an error or a stop the only thing that happens is the end of the loop; the error that leaves `run` is the task's own.",
        "an error or stop at every possible point of a pass, any error object (falsy ones, too)."),
"C08": ("`EventBus.register/unregister/emit`. Unbounded: any number of callbacks of one class and priority; any number of priorities of one class; any number of classes; registering and unregistering in a registry of any size (the representation invariant - per class the priorities descending, per priority the callbacks in order of registration - is assumed before and proved after). Two further *bounded* harnesses run whole histories: three registrations (with one unregistration) over a hierarchy of three classes with unbounded priorities.",
        "any registry and any event class; the bounded histories (labelled so, not counted as proved) look for an interplay the one-step contracts would miss."),
"C09": ("`EventSourceScheduler.schedule/unschedule` and its wake-up: a source with any number of events of any time/priority is followed through an arbitrary wake-up by induction; any number of other sources in the table.",
        "any source, any moment of unscheduling."),
"C10": ("`Strategy.setup/run_daily/set_options/options/_check_handle`, `create_event_class`: any number of tasks and periods; state before/during/after/failed initialisation; `wrap_user_callback` calls the very function with the context.",
        "every state of initialisation and every function identity."),
"C11": ("`setup_scheduler_config`, `setup_account_config` and `_load_config` with a ghost module of any settings: the named one gets its value, an arbitrary other keeps its own; loading again.",
        "any names and values, both directions of the frame condition."),
"C12": ("`parse_task_info`, `parse_env` and the parser `start_task` builds: the declarations of both parsers are compared canonically (argparse's meaning of equal declarations is equal: assumed contract), then the mapping into the reported fields for any parsed values; any environment option of any number of entries.",
        "argparse itself is a library; spelling variants are covered by showing that the same parser declarations are used, and at run time with the real argparse."),
"C13": ("`get_activate_task_process` over any number of processes that may vanish or deny access at each query; `_is_task_cmd` over any command line; `__main__.stop_task/_kill` over any running tasks and every selection: the ghost set of signalled processes.",
        "any process table; ending of a process at every query."),
"C14": ("`__main__.start_task`, `TaskRunner`, `_exist_repeated_task` with any process table: refused iff another running task has the name; nothing set up before refusal.",
        "any number and order of processes, own and parent included."),
"C15": ("`account.api.order` with `_check_code/_check_amount/_check_style/_check_side`: for any code text, amount, style and side: handed on iff well formed, with the given values.",
        "all texts, all integers and non-integers by type."),
"C16": ("`Account.order` on an order book of any size with any id source: one submission, the fields, fresh id, failure state.",
        "any book (freshness is against all ids), any failure text."),
"C17": ("`AnXinDMATradeGate.order/cancel_order/_encode_security` line building on ghost files: each column of the written line for any order, account, counter type and algorithm; refusals write nothing.",
        "any prices, codes and configurations; column by column equality of symbolic text."),
"C18": ("`AnXinDMATradeGate._write` with a ghost file shared with arbitrary other writers: append position, header iff empty, flush before unlock, retries at the interval until the limit (while-loop invariant given), timeout leaves the file.",
        "every interleaving with other writers: whenever the lock is not held the content is arbitrary."),
"C19": ("`_save_orders/_load_orders/_data_file`, `Order.json/load` on ghost files (`json.dump/load` round trip, atomic `shutil.move` assumed): any number of orders, any fields; crash between any two steps by checking that each step leaves the store whole.",
        "all crash points between file operations; power loss (missing fsync) is out of scope."),
"C20": ("`AnXinDMATradeGate.sync_orders/_update_order/_decode_line/_parse_status`: induction over the lines (invariant given) with ghost functions last(p); one synchronisation from an arbitrary state; a lemma that re-reading is idempotent; eight harnesses by situation (first/another day/later, malformed lines skipped or not, failed submission).",
        "any file length, any growth between reads, any cut of the last line."),
"C21": ("`Account.sync_orders` over any book and any report (invariant `Merged` given for the loop): reported order, arbitrary other order, user snapshots; gate errors.",
        "any report and any book at once."),
"C22": ("`Account.sync_balance` over any report: cash figures, an arbitrary reported and an arbitrary unreported position; errors at every incomplete shape.",
        "any number of positions and optional fields."),
"C23": ("`AnXinDMATradeGate.sync_balance/_read_csv/_decode_security` on ghost data frames with any number of rows; the account's row between arbitrary blocks; an arbitrary position row; errors for each incomplete file.",
        "pandas is represented by contracts on the operations used (filter, row iteration, isna); the runtime companion uses the real pandas."),
"C24": ("`account.api.get_orders` on any book: an arbitrary order of the book is returned iff it matches; an arbitrary returned one is in the book.",
        "all books and filters, both directions."),
"C25": ("`Account.order`, `Position.on_order_created`: effect on positions of both sides: any position table, any amount; frame: an arbitrary other position.",
        "all amounts (below, at and above what is closeable)."),
"C26": ("`Portfolio`, `UserPosition`, `UserPositionDict`, `UserOrder`, `UserContext`: each view equals the account's field; sum over any number of positions; missing key.",
        "all fields for any state."),
"C27": ("`batch_submit_orders`/`batch_cancel_orders`: any number of entries of nine kinds of shape, by the loop's invariant; arbitrary entry.",
        "any batch; the effect of an entry is independent of the others by the frame condition."),
"C28": ("`set_options`, `Strategy.setup`, `Context.account/trade_gate/portfolio` and every api call, with account on/off/switched.",
        "every call of the interface in every state; gates are arbitrary classes."),
"C29": ("`common.utils.simple_retry` wrapper: while-loop invariant over attempts; function and condition of arbitrary behaviour, any limit and interval.",
        "any number of failures."),
"C30": ("`Account.setup/_setup_sync_timer -> EventSource` grid of sync events: any interval, any number of periods; on-grid iff event; priority; which syncs run.",
        "as C03, for any interval."),
"C31": ("`account.api.cancel_order`/`Account.cancel_order` on any book, any id (text or number), gate errors.",
        "all books."),
"C32": ("`strategy_print` with any values, separators and ends, printed twice to a ghost file others append to.",
        "any text and any other writers in between; flush before return."),
"C33": ("`Context` and `UserContext` properties on any parts, times of the loop on any clock reading; creation order.",
        "all clock readings (exactness to the millisecond is arithmetic)."),
}

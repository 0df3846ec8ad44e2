prop("U01", "Concurrency limits hold and nobody waits while there is room",
     "Never more tasks hold a concurrency limiter than its limit at the time they entered. Whenever slots are free nobody waits: a slot freed by normal exit, an error, cancellation of a holder, cancellation of a waiter that was already given the slot, or a raised limit goes to a waiter at once. Freed slots go to the highest priority and among equals in order of arrival, and the free count is always limit minus holders. Releasing too often and negative limits are refused, and a lock's size cannot change.",
     "interleavings schedules histories", "every history of up to 5 events over up to 4 tasks, with the loop running or held between events; arbitrary priorities",
     "tests fix one schedule; a slot lost to a cancellation between wake-up and resume blocks a device for ever and appears only in that window",
     "zigpy/datastructures.py zigpy/device.py zigpy/application.py", [("PriorityDynamicBoundedSemaphore.acquire/release/_wake_up_next", "zigpy/datastructures.py")],
     state=[("_value", "free slots, may be negative after lowering the limit", "zigpy/datastructures.py"), ("_waiters", "heap of waiting futures", "zigpy/datastructures.py")],
     observe=["async with, value, locked(), num_waiting"])
prop("U02", "Duplicates are suppressed exactly within their window and timers fire once",
     "The duplicate filter suppresses an object exactly from when it last let it through until the window given then has passed, for any mix of windows and objects, without comparing objects by order, and forgets expired objects. A reschedulable timer runs its callback exactly once, at the moment last asked for, never earlier, and not after being cancelled; it can be armed again, also from its own callback.",
     "histories schedules", "every history of 4 uses over 3 objects or 4 timer operations, with arbitrary integer windows, delays and gaps",
     "tests use one window and a fixed order; the order in which windows expire is what goes wrong",
     "zigpy/datastructures.py", [("Debouncer", "zigpy/datastructures.py"), ("ReschedulableTimeout", "zigpy/datastructures.py")],
     observe=["filter(), is_filtered(), clean(), reschedule(), cancel()"])
prop("U03", "Retries, shared calls, listeners and request bookkeeping keep their promises",
     "A retried function is called again only after one of the listed errors, at most the given number of times, after the given pause, and its result or last error is returned. Concurrent calls with equal arguments share one execution and its outcome, result or error, and later calls start anew. Chunked iteration yields every element once, in order. Every listener with a handler is told once whatever the others do, and removed ones no more. An open request is listed under its sequence number until it ends in any way, and a number in use is refused. Background tasks never leak errors.",
     "interleavings histories inputs", "every outcome pattern of up to 4 tries; every interleaving of 4 callers; every combination of 3 listeners; every sequence number",
     "tests pick one success and one failure; promises are about every outcome pattern and interleaving",
     "zigpy/util.py", [("retry, combine_concurrent_calls, Requests, ListenableMixin, CatchingTaskMixin", "zigpy/util.py")],
     observe=["public functions and classes of zigpy.util"])

"""Model of executors: map keeps the order of its arguments; futures complete
in any order, the last first."""
ALL_COMPLETED = 'ALL_COMPLETED'
FIRST_COMPLETED = 'FIRST_COMPLETED'


class Future:
    def __init__(self, value):
        self.value = value

    def result(self, timeout=None):
        return self.value

    def done(self):
        return True

    def exception(self, timeout=None):
        return None

    def add_done_callback(self, fn):
        fn(self)


class Executor:
    def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), max_tasks_per_child=None,
                 thread_name_prefix=''):
        pass

    def submit(self, fn, *args, **kwargs):
        return Future(fn(*args, **kwargs))

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        return iter([fn(*v) for v in zip(*iterables)])

    def shutdown(self, wait=True, cancel_futures=False):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        return None


class ProcessPoolExecutor(Executor):
    pass


class ThreadPoolExecutor(Executor):
    pass


def as_completed(fs, timeout=None):
    return reversed([f for f in fs])

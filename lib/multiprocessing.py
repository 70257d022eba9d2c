"""Model of process pools: map applies the function to every item, in order;
results that come as they are ready may come in any order, the last first."""


def cpu_count():
    return 8


class AsyncResult:
    def __init__(self, value):
        self.value = value

    def get(self, timeout=None):
        return self.value

    def wait(self, timeout=None):
        pass

    def ready(self):
        return True

    def successful(self):
        return True


class Pool:
    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None):
        pass

    def map(self, func, iterable, chunksize=None):
        return [func(v) for v in iterable]

    def imap(self, func, iterable, chunksize=1):
        return iter([func(v) for v in iterable])

    def imap_unordered(self, func, iterable, chunksize=1):
        return reversed([func(v) for v in iterable])

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        out = [func(v) for v in iterable]
        if callback is not None:
            callback(out)
        return AsyncResult(out)

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        out = [func(*v) for v in iterable]
        if callback is not None:
            callback(out)
        return AsyncResult(out)

    def apply(self, func, args=(), kwds={}):
        return func(*args, **kwds)

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        out = func(*args, **kwds)
        if callback is not None:
            callback(out)
        return AsyncResult(out)

    def starmap(self, func, iterable, chunksize=None):
        return [func(*v) for v in iterable]

    def close(self):
        pass

    def join(self):
        pass

    def terminate(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        return None

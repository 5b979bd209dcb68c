"""Stand-in for the goggles event bus: a local TCP server thread per process that only
carries log records. It would compete for the interpreter with the code under test."""


class _Done:
    def result(self, *a, **k):
        return None

    def done(self):
        return True


class _Bus:
    emitted = 0

    def __getattr__(self, name):
        def call(*a, **k):
            _Bus.emitted += 1
            return _Done()
        return call


def install():
    import goggles
    import goggles._core.routing as routing
    bus = _Bus()
    routing.get_bus = lambda: bus
    goggles.get_bus = lambda: bus

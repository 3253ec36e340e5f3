class Formatter:
    def __init__(self, *a, **k):
        pass

    def __getattr__(self, name):
        return lambda *a, **k: None


class ScalarFormatter(Formatter):
    pass


class NullFormatter(Formatter):
    pass


class MaxNLocator(Formatter):
    pass

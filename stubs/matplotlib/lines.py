class Line2D:
    def __init__(self, *a, **k):
        self.args, self.options = a, k

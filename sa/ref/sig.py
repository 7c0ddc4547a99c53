"""a generator of given values"""


class Values:
    def __init__(self, v):
        self.v = v

    def __iter__(self):
        for x in self.v:
            yield x

"""wave files: what the wave module of python records"""


class Wave:
    def __init__(self, record):
        record['open'] = record['open'] + 1
        self.record = record

    def setparams(self, params):
        self.record['nchannels'] = params[0]
        self.record['sampwidth'] = params[1]
        self.record['framerate'] = params[2]

    def setnchannels(self, n):
        self.record['nchannels'] = n

    def setsampwidth(self, n):
        self.record['sampwidth'] = n

    def setframerate(self, n):
        self.record['framerate'] = n

    def setnframes(self, n):
        pass

    def setcomptype(self, comptype, compname):
        pass

    def writeframes(self, data):
        for d in data:
            self.record['frames'].append(d)

    def writeframesraw(self, data):
        self.writeframes(data)

    def close(self):
        self.record['open'] = self.record['open'] - 1

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.close()

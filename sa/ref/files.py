"""Reference definitions: text files and templates.

A file system is a dictionary: path -> content."""


def template(path):
    """content of a template of the repository (modelled)"""
    return None


def fill(text, subs):
    """substitution of the fields of a template (modelled)"""
    return None


class File(object):

    def __init__(self, fs, path, mode):
        self._fs = fs
        self._path = path
        self.name = path
        self.closed = False
        if mode == 'w' or mode == 'w+':
            fs[path] = ''

    def read(self):
        if self._path in self._fs:
            return self._fs[self._path]
        return template(self._path)

    def write(self, text):
        if self.closed:
            raise ValueError
        self._fs[self._path] = self._fs[self._path] + text

    def writelines(self, lines):
        for line in lines:
            self.write(line)

    def readlines(self):
        return self.read().splitlines(True)

    def __iter__(self):
        return iter(self.readlines())

    def flush(self):
        pass

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.close()


class Template(object):

    def __init__(self, text):
        self.text = text

    def substitute(self, subs):
        return fill(self.text, subs)

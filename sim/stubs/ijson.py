"""A stand-in for the ijson package (not installed here) as far as the command-line tools use it: parse(file) yields
(prefix, event, value) while it reads the file chunk by chunk, and raises an error of its own where the text is not JSON."""
import decimal
import json
import re

NUMBER = re.compile(r"-?(?:0|[1-9]\d*)(\.\d+)?([eE][-+]?\d+)?")


class JSONError(Exception):
    pass


class IncompleteJSONError(JSONError):
    pass


class Source(object):
    def __init__(self, f):
        self.f, self.buf, self.pos, self.eof = f, "", 0, False

    def more(self):
        if self.eof:
            return False
        x = self.f.read(64)
        if isinstance(x, bytes):
            x = x.decode("utf-8")
        self.buf, self.pos = self.buf[self.pos:] + x, 0
        self.eof = not x
        return bool(x)

    def peek(self):
        """The next character that is no white space, or None at the end."""
        while True:
            while self.pos < len(self.buf) and self.buf[self.pos] in " \t\r\n":
                self.pos += 1
            if self.pos < len(self.buf):
                return self.buf[self.pos]
            if not self.more():
                return None

    def need(self):
        c = self.peek()
        if c is None:
            raise IncompleteJSONError("Incomplete JSON data")
        return c

    def string(self):
        i = self.pos + 1
        while True:
            while i >= len(self.buf):
                i -= self.pos
                if not self.more():
                    raise IncompleteJSONError("Incomplete string lexeme")
            c = self.buf[i]
            if c == '"':
                break
            i += 2 if c == "\\" else 1
        out = json.loads(self.buf[self.pos:i + 1], strict=False)
        self.pos = i + 1
        return out

    def word(self):
        i = self.pos
        while True:
            while i < len(self.buf) and (self.buf[i].isalnum() or self.buf[i] in "+-."):
                i += 1
            if i < len(self.buf):
                break
            i -= self.pos
            if not self.more():
                break
        out = self.buf[self.pos:i]
        self.pos = i
        return out


def _value(s, prefix):
    c = s.need()
    if c == "{":
        s.pos += 1
        yield prefix, "start_map", None
        if s.need() == "}":
            s.pos += 1
        else:
            while True:
                if s.need() != '"':
                    raise JSONError("Unexpected symbol")
                key = s.string()
                yield prefix, "map_key", key
                if s.need() != ":":
                    raise JSONError("Unexpected symbol")
                s.pos += 1
                for x in _value(s, prefix + "." + key if prefix else key):
                    yield x
                c = s.need()
                s.pos += 1
                if c == "}":
                    break
                if c != ",":
                    raise JSONError("Unexpected symbol")
        yield prefix, "end_map", None
    elif c == "[":
        s.pos += 1
        yield prefix, "start_array", None
        if s.need() == "]":
            s.pos += 1
        else:
            while True:
                for x in _value(s, prefix + ".item" if prefix else "item"):
                    yield x
                c = s.need()
                s.pos += 1
                if c == "]":
                    break
                if c != ",":
                    raise JSONError("Unexpected symbol")
        yield prefix, "end_array", None
    elif c == '"':
        yield prefix, "string", s.string()
    else:
        w = s.word()
        if w == "null":
            yield prefix, "null", None
        elif w in ("true", "false"):
            yield prefix, "boolean", w == "true"
        else:
            m = NUMBER.fullmatch(w)
            if m is None:
                raise JSONError("Unexpected symbol")
            yield prefix, "number", decimal.Decimal(w) if m.group(1) or m.group(2) else int(w)


def parse(f):
    s = Source(f)
    for x in _value(s, ""):
        yield x
    if s.peek() is not None:
        raise JSONError("Additional data")

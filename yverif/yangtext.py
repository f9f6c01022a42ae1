"""YANG module text by RFC 7950 (sections 6.1, 6.3 and 14): the statement tree of a text, or where it stops being one.

Written from the grammar.  Texts on which YANG 1 and 1.1 differ, or which the library
accepts by leniency (DESIGN.md), raise Open and are not judged."""

IDSTART = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"
IDREST = IDSTART + "0123456789.-"


class Open(Exception):
    pass


class Bad(Exception):
    """kind: end, unexpected, escape; offset of the first character that cannot be."""
    def __init__(self, kind, offset=None):
        self.kind, self.offset = kind, offset


class Text:
    def __init__(self, text):
        self.t, self.i = text, 0

    def c(self, k=0):
        """The next character (None at the end)."""
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def need(self):
        if self.c() is None:
            raise Bad("end")
        return self.c()

    def sep(self):
        """Optional separator."""
        start = self.i
        while True:
            if self.c() is not None and self.c() in " \t\n":
                self.i += 1
            elif self.c() == "\r" and self.c(1) == "\n":
                self.i += 2
            elif self.c() == "/" and self.c(1) == "/":
                j = self.t.find("\n", self.i)
                if j < 0:
                    self.i = len(self.t)
                    return "line"
                self.i = j + 1
            elif self.c() == "/" and self.c(1) == "*":
                j = self.t.find("*/", self.i + 2)
                if j < 0:
                    self.i = len(self.t)
                    return "block"
                self.i = j + 2
            else:
                if self.c() in ("\r", "/") and self.c(1) is None:
                    return "half"
                return self.i > start

    def mid(self):
        """Optional separator with something after it."""
        r = self.sep()
        if isinstance(r, str) or self.c() is None:
            raise Bad("end")
        return r

    def ident(self):
        if self.c() is None:
            raise Bad("unexpected", self.i)
        if self.c() not in IDSTART:
            raise Bad("unexpected", self.i)
        s = self.i
        while self.c() is not None and self.c() in IDREST:
            self.i += 1
        return self.t[s:self.i]

    def column(self):
        """Column of the current position, tabs counting as eight spaces."""
        s = self.t.rfind("\n", 0, self.i) + 1
        if "\t" in self.t[s:self.i]:
            raise Open("column after a tab")
        return self.i - s

    def dquoted(self):
        col = self.column
        start = self.i
        self.i += 1
        raw = []
        while True:
            c = self.need()
            self.i += 1
            if c == '"':
                break
            if c == "\\":
                e = self.need()
                self.i += 1
                raw.append("\\" + e)
            else:
                raw.append(c)
        end = self.i
        lines = [[]]
        for p in raw:
            if p == "\n":
                lines.append([])
            else:
                lines[-1].append(p)
        if len(lines) > 1:
            self.i = start
            k = col()
            self.i = end
            for n, ln in enumerate(lines):
                if n < len(lines) - 1:
                    cr = ln[-1:] == ["\r"]
                    if cr:
                        ln.pop()
                    while ln and ln[-1] in (" ", "\t"):
                        ln.pop()
                    if cr:
                        ln.append("\r")
                if n:
                    w = 0
                    while ln and w <= k and ln[0] in (" ", "\t"):
                        w += 8 if ln[0] == "\t" else 1
                        if w > k + 1:
                            raise Open("tab across the column")
                        ln.pop(0)
        out = ""
        for p in [p for n, ln in enumerate(lines) for p in (["\n"] if n else []) + ln]:
            if p[0] == "\\":
                if p[1:] not in ("n", "t", '"', "\\"):
                    raise Bad("escape")
                out += {"n": "\n", "t": "\t"}.get(p[1:], p[1:])
            else:
                out += p
        return out

    def squoted(self):
        j = self.t.find("'", self.i + 1)
        if j < 0:
            raise Bad("end")
        s = self.t[self.i + 1:j]
        self.i = j + 1
        return s

    def quoted(self):
        return self.dquoted() if self.c() == '"' else self.squoted()

    def argument(self):
        if self.c() in ("'", '"'):
            s = self.quoted()
            self.mid()
            while self.c() == "+":
                self.i += 1
                self.mid()
                if self.c() not in ("'", '"'):
                    raise Bad("unexpected", self.i)
                s += self.quoted()
                self.mid()
            return s
        s = self.i
        while True:
            c = self.need()
            if c in " \t\r\n;{}":
                break
            if c == "/" and self.c(1) is None:
                raise Bad("end")
            if c == "/" and self.c(1) in ("/", "*"):
                break
            if c in "'\"" or c == "*" and self.c(1) == "/":
                raise Open("quote or */ in an unquoted string")
            self.i += 1
        if self.i == s:
            raise Bad("unexpected", self.i)
        arg = self.t[s:self.i]
        self.mid()
        return arg

    def statement(self):
        kw = self.ident()
        pref = None
        self.need()
        if self.c() == ":":
            self.i += 1
            pref, kw = kw, self.ident()
        sep = self.mid()
        arg = None
        if self.c() not in (";", "{"):
            if not sep:
                raise Bad("unexpected", self.i)
            arg = self.argument()
        subs = []
        if self.c() == ";":
            self.i += 1
        elif self.c() == "{":
            self.i += 1
            self.mid()
            while self.c() != "}":
                subs.append(self.statement())
                self.mid()
            self.i += 1
        else:
            raise Bad("unexpected", self.i)
        return (pref, kw, arg, subs)


def parse(text):
    """("ok", tree) | ("bad", kind, offset) | ("open", why)"""
    t = Text(text)
    try:
        t.mid()
        start = t.i
        st = t.statement()
        if st[1] not in ("module", "submodule"):
            raise Bad("unexpected", start)
        if st[0] is not None:
            raise Open("prefixed module")
        r = t.sep()
        if r in ("block", "half"):
            raise Open("unfinished separator after the module")
        if t.c() is not None:
            raise Bad("unexpected", t.i)
        return ("ok", st)
    except Bad as e:
        return ("bad", e.kind, e.offset)
    except Open as e:
        return ("open", str(e))

"""An independent reader of iCalendar/vCard text (content lines, parameters, nesting)."""


class Bad(Exception):
    pass


def unfold(data):
    """bytes -> list of logical lines (str). Folding is undone on octets, as RFC 5545 3.1 says."""
    if isinstance(data, str):
        data = data.encode("utf-8")
    data = data.replace(b"\r\n ", b"").replace(b"\r\n\t", b"")
    lines = data.split(b"\r\n")
    return [l.decode("utf-8") for l in lines if l]


def caret(v):
    out, i = [], 0
    while i < len(v):
        if v[i] == "^" and i + 1 < len(v) and v[i + 1] in "n^'":
            out.append({"n": "\n", "^": "^", "'": '"'}[v[i + 1]])
            i += 2
        else:
            out.append(v[i])
            i += 1
    return "".join(out)


def line(l, group=False):
    """content line -> (group, name, [(param, [values])], raw value)"""
    i, n = 0, len(l)
    while i < n and (l[i].isalnum() or l[i] in "-_" or (group and l[i] == ".")):
        i += 1
    name = l[:i]
    grp = None
    if group and "." in name:
        grp, name = name.rsplit(".", 1)
    if not name or i >= n or l[i] not in ";:":
        raise Bad("no name: %r" % l)
    params = []
    while l[i] == ";":
        i += 1
        j = i
        while j < n and l[j] not in "=:;,\"":
            j += 1
        pname = l[i:j].upper()
        if j >= n or l[j] != "=":
            if group:       # vCard 2.1 style parameter without a value
                params.append((pname, []))
                i = j
                if i >= n:
                    raise Bad("no value: %r" % l)
                continue
            raise Bad("parameter without =: %r" % l)
        i = j
        vals = []
        while True:
            i += 1
            if i < n and l[i] == '"':
                j = l.find('"', i + 1)
                if j < 0:
                    raise Bad("unclosed quote: %r" % l)
                vals.append(caret(l[i + 1:j]))
                i = j + 1
            else:
                j = i
                while j < n and l[j] not in ',;:"':
                    j += 1
                vals.append(caret(l[i:j]))
                i = j
            if i >= n or l[i] not in ",;:":
                raise Bad("bad parameter end: %r" % l)
            if l[i] != ",":
                break
        params.append((pname, vals))
    if l[i] != ":":
        raise Bad("no colon: %r" % l)
    return grp, name.upper(), params, l[i + 1:]


class Node(object):
    def __init__(self, name):
        self.name = name
        self.props = []     # (group, name, params, value)
        self.subs = []

    def get(self, name):
        return [p for p in self.props if p[1] == name]

    def value(self, name):
        p = self.get(name)
        return p[0][3] if p else None

    def walk(self):
        yield self
        for s in self.subs:
            for x in s.walk():
                yield x

    def __repr__(self):
        return "Node(%s, %r, %r)" % (self.name, self.props, self.subs)


def parse(data, group=False):
    """text -> list of top-level nodes; strict about nesting."""
    top, stack = [], []
    for l in unfold(data):
        g, name, params, value = line(l, group)
        if name == "BEGIN":
            node = Node(value.upper())
            (stack[-1].subs if stack else top).append(node)
            stack.append(node)
        elif name == "END":
            if not stack or stack[-1].name != value.upper():
                raise Bad("unbalanced END:%s" % value)
            stack.pop()
        else:
            if not stack:
                raise Bad("property outside a component: %r" % l)
            stack[-1].props.append((g, name, params, value))
    if stack:
        raise Bad("unclosed %s" % stack[-1].name)
    return top


def split_esc(s, sep):
    """split at unescaped sep; pieces keep their escapes"""
    out, cur, i = [], [], 0
    while i < len(s):
        if s[i] == "\\" and i + 1 < len(s):
            cur.append(s[i:i + 2])
            i += 2
        elif s[i] == sep:
            out.append("".join(cur))
            cur = []
            i += 1
        else:
            cur.append(s[i])
            i += 1
    out.append("".join(cur))
    return out


def unescape(s, cr=False):
    """cr: the library's own escape for a carriage return counts"""
    out, i = [], 0
    while i < len(s):
        if s[i] == "\\" and i + 1 < len(s):
            c = s[i + 1]
            out.append("\n" if c in "nN" else "\r" if cr and c == "r" else c if c in "\\;,:\"" else "\\" + c)
            i += 2
        else:
            out.append(s[i])
            i += 1
    return "".join(out)


def escape(s, semi=True):
    s = s.replace("\\", "\\\\").replace("\n", "\\n").replace(",", "\\,")
    return s.replace(";", "\\;") if semi else s

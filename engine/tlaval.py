"""Reads TLA+ values as TLC prints them (error traces)."""
import re

TOK = re.compile(r'\s*(<<|>>|\|->|:>|@@|[\[\]{}(),]|"(?:[^"\\]|\\.)*"|-?\d+|\w+)')


def parse(text):
    toks = []
    i = 0
    text = text.strip()
    while i < len(text):
        m = TOK.match(text, i)
        if not m:
            raise ValueError(text[i:i + 40])
        toks.append(m.group(1))
        i = m.end()
    pos = [0]

    def peek():
        return toks[pos[0]]

    def take():
        pos[0] += 1
        return toks[pos[0] - 1]

    def seq(end):
        out = []
        while peek() != end:
            out.append(val())
            if peek() == ",":
                take()
        take()
        return out

    def val():
        t = take()
        if t == "<<":
            return seq(">>")
        if t == "{":
            return seq("}")
        if t == "[":
            out = {}
            while peek() != "]":
                k = take()
                assert take() == "|->"
                out[k] = val()
                if peek() == ",":
                    take()
            take()
            return out
        if t == "(":
            out = []
            while peek() != ")":
                k = val()
                assert take() == ":>"
                out.append((k, val()))
                if peek() == "@@":
                    take()
            take()
            return out
        if t[0] == '"':
            return re.sub(r'\\(.)', lambda m: {"n": "\n", "t": "\t"}.get(m.group(1), m.group(1)), t[1:-1])
        if t in ("TRUE", "FALSE"):
            return t == "TRUE"
        if re.match(r"-?\d+$", t):
            return int(t)
        return t
    return val()


def last_state(log):
    st = re.split(r'\nState \d+: ', log)[-1]
    st = st.split("\n\n")[0]
    out = {}
    for p in re.split(r'(?:^|\n)/\\ ', st)[1:]:
        n, v = p.split(" = ", 1)
        out[n.strip()] = parse(v)
    return out

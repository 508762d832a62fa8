"""Reference semantics of the grammar language documented in pangram/self-spec.ebnf.

Grammar terms, written independently of bootstrap.py:
  singular: ("lit", text) | ("ref", name) | ("set", inverted, ((a, b), ...)) | ("nest", (concat, ...))
  item:     (singular, mode) with mode in "", "?", "*", "+"
  concat:   (item, ...)
  definition: ("g", name, ((alternative name or None, concat), ...)) | ("t", name, (concat, ...))
              | ("w", (concat, ...))
A grammar is a tuple of definitions.
"""


class Diverges(Exception):
    """Nothing is promised: left recursion, or repetition of something that matches nothing."""


class Unclear(Exception):
    """The documentation does not decide this."""


class Invalid(Exception):
    """Not a grammar: must be rejected."""


def loc(text, offs):
    before = text[:offs]
    line = before.count("\n") + 1
    col = offs - (before.rfind("\n") + 1) + 1
    return (line, col, offs)


# Patterns: prioritised matching, all ends in order of preference.

def ends_concat(frags, concat, s, i, rec):
    if not concat:
        yield i
        return
    for j in ends_item(frags, concat[0], s, i, rec):
        yield from ends_concat(frags, concat[1:], s, j, rec)


def ends_item(frags, item, s, i, rec):
    singular, mode = item
    if mode == "":
        yield from ends_single(frags, singular, s, i, rec)
    elif mode == "?":
        yield from ends_single(frags, singular, s, i, rec)
        yield i
    elif mode == "*":
        yield from ends_star(frags, singular, s, i, rec)
    else:
        for j in ends_single(frags, singular, s, i, rec):
            yield from ends_star(frags, singular, s, j, rec)


def ends_star(frags, singular, s, i, rec):
    for j in ends_single(frags, singular, s, i, rec):
        if j == i:
            raise Diverges
        yield from ends_star(frags, singular, s, j, rec)
    yield i


def ends_single(frags, singular, s, i, rec):
    kind = singular[0]
    if kind == "lit":
        if s.startswith(singular[1], i):
            yield i + len(singular[1])
    elif kind == "set":
        if i < len(s) and any(a <= s[i] <= b for a, b in singular[2]) != singular[1]:
            yield i + 1
    elif kind == "nest":
        for c in singular[1]:
            yield from ends_concat(frags, c, s, i, rec)
    else:
        for c in frags[singular[1]]:
            yield from ends_concat(frags, c, s, i, rec)


def first_end(frags, alts, s, i):
    for c in alts:
        for j in ends_concat(frags, c, s, i, ()):
            return j
    return None


def refs(concat, what):
    for singular, _ in concat:
        if singular[0] == "nest":
            for c in singular[1]:
                yield from refs(c, what)
        elif what == "set*" and singular[0] == "set":
            yield singular
        elif singular[0] == what:
            yield singular[1]


class Grammar:
    def __init__(self, defs):
        self.rules = {}
        self.frags = {}
        order = []
        self.ws = []
        ws_at = None
        used = []
        for d in defs:
            if d[0] == "g":
                self.rules.setdefault(d[1], []).extend(d[2])
                for _, concat in d[2]:
                    if any(True for _ in refs(concat, "set")):
                        raise Invalid("set in a grammar rule")
                    for lit in refs(concat, "lit"):
                        if ("lit", lit) not in order:
                            order.append(("lit", lit))
                    used.extend(refs(concat, "ref"))
            elif d[0] == "t":
                self.frags.setdefault(d[1], []).extend(d[2])
                if ("ref", d[1]) not in order:
                    order.append(("ref", d[1]))
            else:
                if ws_at is None:
                    ws_at = len(order)
                self.ws.extend(d[1])
        if not self.rules:
            raise Unclear
        # Tokens are known by names made from their text: nothing is said about equal names.
        lits = [t[1].lower() for t in order if t[0] == "lit"]
        if len(set(lits)) < len(lits) or set(lits) & (set(used) | set(self.rules) | set(self.frags)):
            raise Unclear
        for u in used:
            if (u in self.rules) == (u in self.frags):
                raise Invalid(f"{u} is not defined or defined twice")
        for d in defs:
            for c in d[-1]:
                for x in refs(c[1] if d[0] == "g" else c, "set*"):
                    if any(a > b for a, b in x[2]):
                        raise Invalid("a range without characters")
        # Patterns may not be recursive, and must exist.
        state = {}

        def visit(name):
            if name not in self.frags:
                raise Invalid(f"{name} is not a token rule")
            if state.get(name) == 1:
                raise Invalid(f"{name} is recursive")
            if name in state:
                return
            state[name] = 1
            for c in self.frags[name]:
                for r in refs(c, "ref"):
                    visit(r)
            state[name] = 2

        for u in used:
            if u in self.frags:
                visit(u)
        for c in self.ws:
            for r in refs(c, "ref"):
                visit(r)
        self.tokens = [t for t in order if t[0] == "lit" or t[1] in used]
        self.ws_at = ws_at
        self.order = order
        self.start = next(d[1] for d in defs if d[0] == "g")

    def alts_of(self, tok):
        return [((tok, ""),)] if tok[0] == "lit" else self.frags[tok[1]]

    def tokenize(self, s):
        """[(token, text, offset)], unmatched offsets"""
        out, bad = [], []
        i = 0
        while i < len(s):
            best, size = None, 0
            for t in self.tokens:
                j = first_end(self.frags, self.alts_of(t), s, i)
                if j is not None and j - i > size:
                    best, size = t, j - i
            j = first_end(self.frags, self.ws, s, i)
            if j is not None and j > i:
                if j - i > size:
                    best, size = "ws", j - i
                elif j - i == size and self.ws_at <= self.order.index(best):
                    raise Unclear
            if best is None:
                bad.append(i)
                size = 1
            elif best != "ws":
                out.append((best, s[i:i + size], i))
            i += size
        return out, bad

    def parse(self, tokens, name=None):
        """Tree or None. Terminals are indices of tokens; rules are (name, alternative, children)."""
        self.fuel = 20000
        r = self.rule(name or self.start, tokens, 0, ())
        if r is None or r[1] != len(tokens):
            return None
        return r[0][0]

    def rule(self, name, tokens, i, active):
        if (name, i) in active:
            raise Diverges
        active = active + ((name, i),)
        alts = self.rules[name]
        for alt, concat in alts:
            r = self.concat(concat, tokens, i, active)
            if r is not None:
                return [(name, "" if len(alts) == 1 else alt, r[0])], r[1]
        return None

    def concat(self, concat, tokens, i, active):
        out = []
        for item in concat:
            r = self.item(item, tokens, i, active)
            if r is None:
                return None
            out.extend(r[0])
            i = r[1]
        return out, i

    def item(self, item, tokens, i, active):
        singular, mode = item
        if mode == "":
            return self.single(singular, tokens, i, active)
        out, n = [], 0
        while True:
            self.fuel -= 1
            if self.fuel < 0:
                raise Diverges
            if mode == "?" and n == 1:
                break
            r = self.single(singular, tokens, i, active)
            if r is None:
                break
            if r[1] == i and mode != "?":
                raise Diverges
            out.extend(r[0])
            i = r[1]
            n += 1
        if mode == "+" and n == 0:
            return None
        return out, i

    def single(self, singular, tokens, i, active):
        if singular[0] == "nest":
            for c in singular[1]:
                r = self.concat(c, tokens, i, active)
                if r is not None:
                    return r
            return None
        if singular[0] == "ref" and singular[1] in self.rules:
            return self.rule(singular[1], tokens, i, active)
        if i < len(tokens) and tokens[i][0] == singular:
            return [i], i + 1
        return None


# Rendering.

ESC = {"\t": "t", "\n": "n", "\r": "r"}


def hexed(c, form):
    n = ord(c)
    return {"x": f"#x{n:02x}", "u": f"#u{n:04X}", "U": f"#U{n:08x}"}[form]


def esc(c, special, form):
    """One character where those in `special` have to be escaped."""
    if form in ("x", "u", "U"):
        return hexed(c, form)
    if form == "e" and c in ESC:
        return "#" + ESC[c]
    if c in special:
        return "#" + c
    if form == "e" and c not in "xuUtnr":
        return "#" + c
    return c


def r_single(x, form="", quote='"'):
    if x[0] == "lit":
        return quote + "".join(esc(c, "#" + quote, form) for c in x[1]) + quote
    if x[0] == "set":
        body = ""
        for a, b in x[2]:
            body += esc(a, "^-]#", form)
            if a != b:
                body += "-" + esc(b, "^-]#", form)
        return "[" + ("^" if x[1] else "") + body + "]"
    if x[0] == "nest":
        return "(" + " | ".join(r_concat(c, form, quote) for c in x[1]) + ")"
    return x[1]


def r_concat(c, form="", quote='"'):
    return " ".join(r_single(x, form, quote) + m for x, m in c)


def r_def(d, form="", quote='"'):
    if d[0] == "g":
        alts = [r_concat(c, form, quote) + (f" -> {n}" if n else "") for n, c in d[2]]
        return f"{d[1]} ::= " + " | ".join(alts) + " ;"
    alts = " | ".join(r_concat(c, form, quote) for c in d[-1])
    return (d[1] if d[0] == "t" else "_") + f" :== {alts} ;"


def render(defs, form="", quote='"', sep="\n"):
    return sep.join(r_def(d, form, quote) for d in defs)

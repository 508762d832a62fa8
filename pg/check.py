#!/usr/bin/env python3
"""C20: exhaustive comparison of pangram/bootstrap.py with the documented grammar language.

check.py <quick|thorough>: enumerates grammars x texts (see parts below), runs the real tokenizer,
grammar analysis and parsers of /repo/pangram/bootstrap.py on each and compares with ref.py.
"""

import contextlib
import io
import itertools
import json
import multiprocessing
import os
import re
import resource
import runpy
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import warnings

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ref  # noqa: E402

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PG_REPO", "/repo")
ID = "C20"


class Alarm(Exception):
    """The real code did not come back."""


HUNG = False


def on_alarm(*_):
    global HUNG
    HUNG = True
    raise Alarm("no answer in time")


class Viol(Exception):
    def __init__(self, key, text):
        super().__init__(key)
        self.key, self.text = key, text


class Engine(Exception):
    pass


B = None  # names of the bootstrap script
META = None  # the grammar it derives from its own specification
MANUAL = None  # (token expressions, parser) coded by hand in the script, if they can be found
SILENT = io.StringIO()


def load():
    """Runs the real script in a scratch copy (it writes a file next to itself)."""
    global B, META, MANUAL
    tmp = tempfile.mkdtemp(prefix="pg")
    cwd = os.getcwd()
    real = subprocess.check_call, subprocess.run, subprocess.call
    try:
        shutil.copytree(f"{REPO}/pangram", f"{tmp}/pangram")
        os.mkdir(f"{tmp}/src")
        os.chdir(f"{tmp}/pangram")
        # The generated file is not looked at; formatting it is not needed.
        subprocess.check_call = subprocess.call = lambda *a, **k: 0
        subprocess.run = lambda *a, **k: subprocess.CompletedProcess(a, 0)
        firsts, made = [], []

        def watch(frame, event, _):
            c = frame.f_code
            if event == "call" and c.co_argcount and frame.f_globals.get("__name__") == "__main__":
                first = frame.f_locals.get(c.co_varnames[0])
                if c.co_name == "tokenize" and len(firsts) < 4:
                    firsts.append(first)
                elif c.co_name == "__init__":
                    made.append(first)

        with contextlib.redirect_stdout(SILENT):
            sys.setprofile(watch)
            signal.setitimer(signal.ITIMER_REAL, 60)
            try:
                B = runpy.run_path("bootstrap.py", run_name="__main__")
            except (Exception, RecursionError) as e:
                raise Viol("self-specification", f"the script does not accept its own specification: {e!r}")
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
                sys.setprofile(None)
    finally:
        subprocess.check_call, subprocess.run, subprocess.call = real
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)
    if "AstGrammar" not in B:
        raise Engine("bootstrap.py has no AstGrammar")
    gs = [v for v in made if isinstance(v, B["AstGrammar"])]
    if not gs:
        raise Engine("the script makes no grammar")
    META = gs[-1]
    ps = [v for v in made if type(v).__name__ == "Parser" and getattr(v, "name", None) == "Grammar"]
    rs = [v for v in firsts if isinstance(v, list) and v and all(isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], re.Pattern) for x in v)]
    MANUAL = (rs[0], ps[0]) if ps and rs and "tokenize" in B else None


# What the real code does.

def quiet(f, *a):
    """("ok", result) or ("rejected", message); anything but a ValueError is a violation."""
    SILENT.seek(0)
    SILENT.truncate()
    signal.setitimer(signal.ITIMER_REAL, 15)
    try:
        with contextlib.redirect_stdout(SILENT):
            return "ok", f(*a)
    except ValueError as e:
        return "rejected", str(e)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def real_grammar(text):
    return quiet(lambda: B["AstGrammar"](META.parse(list(META.tokenize(text)))))


def drain(it):
    """Tokens given and whether an error ended them."""
    out = []
    try:
        for t in it:
            out.append(t)
    except ValueError:
        return out, True
    return out, False


def spot(loc):
    return (loc.line, loc.col, loc.offs)


def tree_of(node):
    """Comparable form of a real parse tree."""
    span = None if node.span is None else (spot(node.span.a), spot(node.span.b))
    if isinstance(node.data, str):
        return ("T", node.name, node.data, span)
    return ("N", node.name, tuple(tree_of(c) for c in node.data), span)


def same_tree(real, want, tokens, text):
    """None if equal, otherwise what differs."""
    if isinstance(want, int):
        tok, txt, at = tokens[want]
        span = (ref.loc(text, at), ref.loc(text, at + len(txt)))
        if real[0] != "T" or real[2] != txt or real[3] != span:
            return f"{real} instead of terminal {txt!r} at {span}"
        if tok[0] == "ref" and real[1] != tok[1]:
            return f"terminal {real[1]} instead of {tok[1]}"
        return None
    name, alt, children = want
    full = name if alt == "" else f"{name}.{alt}" if alt is not None else None
    if real[0] != "N" or (real[1] != full if full is not None else not real[1].startswith(name + ".")):
        return f"{real[:2]} instead of rule {name} alternative {alt}"
    if len(real[2]) != len(children):
        return f"{real} instead of {want}"
    for r, w in zip(real[2], children):
        d = same_tree(r, w, tokens, text)
        if d:
            return d
    ends = list(leaves(want))
    span = None
    if ends:
        a, b = tokens[ends[0]], tokens[ends[-1]]
        span = (ref.loc(text, a[2]), ref.loc(text, b[2] + len(b[1])))
    if real[3] != span:
        return f"{real[1]} spans {real[3]} instead of {span}"
    return None


def leaves(tree):
    if isinstance(tree, int):
        yield tree
    else:
        for c in tree[2]:
            yield from leaves(c)


class Stats:
    def __init__(self):
        self.states = self.transitions = self.compared = self.grammars = 0
        self.count = {}
        self.samples = []
        self.outcomes = set()

    def bump(self, k):
        self.count[k] = self.count.get(k, 0) + 1


def parse_case(real, rtoks, name, tree, toks, text, d, st):
    """Parses tokens with the given or the first rule; the tree if there should be one."""
    try:
        got, res = quiet(lambda: real.parse(rtoks, *name))
    except (Exception, RecursionError) as e:
        raise Viol(f"parse:{d}", f"parsing raises {e!r}\n  {d}\n  expected {tree}")
    if (got == "ok") != (tree is not None):
        raise Viol(f"parse:{d}", f"the text is {got} ({res})\n  {d}\n  expected {tree}")
    if tree is None:
        st.bump("not_parsed")
        st.outcomes.add(("no", len(toks)))
        return None
    st.bump("parsed")
    st.outcomes.add(("yes", len(toks), str(tree)))
    diff = same_tree(tree_of(res), tree, toks, text)
    if diff:
        raise Viol(f"tree:{d}", f"{diff}\n  {d}\n  expected {tree}")
    return res


def case(defs, src, texts, st):
    """One grammar on texts."""
    d0 = f"grammar {src!r}"
    st.grammars += 1
    st.states += 1
    try:
        if defs is None:
            raise ref.Invalid("not a grammar")
        g = ref.Grammar(defs)
        want = "ok"
    except ref.Invalid as e:
        want = "rejected"
    except (ref.Unclear, ref.Diverges):
        st.bump("unclear_skipped")
        return
    try:
        got, real = real_grammar(src)
    except (Exception, RecursionError) as e:
        raise Viol(f"grammar:{src}", f"{d0}: {e!r} instead of being {want}")
    st.compared += 1
    st.outcomes.add((want, len(g.tokens) if want == "ok" else 0))
    if got != want:
        raise Viol(f"grammar:{src}", f"{d0} is {got} ({real if got != 'ok' else ''}) instead of {want}")
    if want != "ok":
        st.bump("rejected_grammars")
        return
    for text in texts:
        d = f"{d0} text {text!r}"
        try:
            toks, bad = g.tokenize(text)
            tree = g.parse(toks)
        except (ref.Unclear, ref.Diverges):
            st.bump("unclear_skipped")
            continue
        st.states += 1
        st.transitions += len(toks) + len(bad) + 1
        st.compared += 1
        try:
            got, (rtoks, failed) = quiet(lambda: drain(real.tokenize(text)))
        except (Exception, RecursionError) as e:
            raise Viol(f"tokenize:{src}:{text}", f"tokenizing raises {e!r}\n  {d}")

        def bad_if(c, what):
            if c:
                raise Viol(f"{what}:{src}:{text}", f"{what}\n  {d}\n  tokens {[str(t) + ' ' + repr(t.text) for t in rtoks]}, failed {failed}\n  instead of {toks}, unmatched {bad}")

        bad_if(failed != bool(bad), "unmatched characters are not reported as they should")
        if failed:
            st.bump("not_tokenized")
            rt = rtoks if not rtoks or rtoks[-1].name != "EOF" else rtoks[:-1]
        else:
            bad_if(not rtoks or rtoks[-1].name != "EOF" or (spot(rtoks[-1].span.a), spot(rtoks[-1].span.b)) != (ref.loc(text, len(text)),) * 2, "no token for the end of the text")
            rt = rtoks[:-1]
        bad_if([(t.text, spot(t.span.a), spot(t.span.b)) for t in rt] != [(x, ref.loc(text, i), ref.loc(text, i + len(x))) for _, x, i in toks], "tokens differ")
        for t, (w, _, _) in zip(rt, toks):
            bad_if(w[0] == "ref" and t.name != w[1], "token of another kind")
        # Tokens of the same kind have the same name, others another.
        names = {}
        for t, (w, _, _) in zip(rt, toks):
            names.setdefault(w, set()).add(t.name)
        bad_if(any(len(n) > 1 for n in names.values()) or len(set().union(*names.values())) < len(names), "kinds of tokens are mixed up")
        if failed:
            continue
        res = parse_case(real, rtoks, (), tree, toks, text, d, st)
        for name in g.rules:
            if name != g.start:
                try:
                    other = g.parse(toks, name)
                except ref.Diverges:
                    continue
                parse_case(real, rtoks, (name,), other, toks, text, f"{d} rule {name}", st)
        if res is None:
            continue
        if text == texts[-1] or len(st.samples) < 3:
            try:
                got, again = quiet(lambda: real.tokenize_and_parse(text))
                if got != "ok" or tree_of(again) != tree_of(res):
                    raise ValueError(again)
            except (Exception, RecursionError) as e:
                raise Viol(f"both:{src}:{text}", f"tokenizing and parsing at once gives {e!r}\n  {d}")
        if len(st.samples) < 3:
            st.samples.append(f"{d} -> {tree}")


# The parts: generators of (definitions, source text, texts).

def strings(alpha, n):
    for k in range(n + 1):
        for t in itertools.product(alpha, repeat=k):
            yield "".join(t)


def one(x, m=""):
    return ((x, m),)


def L(s):
    return ("lit", s)


def R(n):
    return ("ref", n)


def S(inv, *rs):
    return ("set", inv, tuple((r[0], r[-1]) for r in rs))


def N(*cs):
    return ("nest", cs)


WS = ("w", (one(L(" "), "+"),))


def p_grammars(t):
    """Grammar rules: every small arrangement of parts."""
    second = [
        ("g", "rest", ((None, one(L("b"))),)),
        ("g", "rest", ((None, ((L("b"), ""), (L("a"), "?"))),)),
        ("g", "rest", (("x", ((L("a"), ""), (L("b"), ""))), (None, one(L("b"))))),
        ("g", "rest", ((None, one(L("b"), "?")), )),
        ("g", "rest", (("x", ((L("b"), ""), (R("rest"), ""))), ("y", one(L("a"))))),
        ("g", "rest", (("x", ((L("b"), ""), (R("start"), "?"), (L("c"), ""))), ("y", one(R("word"))))),
    ]
    word = ("t", "word", (((S(False, "c"), ""), (S(False, "bc"), "*")),))
    singles = [L("a"), L("b"), R("word"), R("rest"), N(one(L("a")), one(L("b"))), N(((L("a"), ""), (L("b"), "")), one(L("a"))), N(((L("a"), "?"), (R("rest"), "")))]
    items = [(s, m) for s in singles for m in ("", "?", "*", "+")]
    concats = [(i,) for i in items] + [(i, j) for i in items for j in items]
    if t:
        few = [i for i in items if i[1] in ("", "*", "+")][::2]
        concats += [(i, j, k) for i in few for j in few for k in few]
    texts = list(strings("abc", 4 if t else 3)) + ["ab ab", " b", "b ", "a  bb\n", "abab", "aabb", "bbba", "babc", "cbcb"]
    for r in second:
        for c in concats:
            yield (("g", "start", ((None, c),)), r, word, WS), None, texts
        # Alternatives.
        for c in concats[::23 if t else 29]:
            for e in concats[3::31 if t else 37]:
                yield (("g", "start", ((None, c), ("other", e))), r, word, WS), None, texts


def p_definitions(t):
    """Definitions in every order, repeated, missing and mixed up."""
    menu = [
        ("t", "aa", (one(L("a"), "+"),)),
        ("t", "aa", (one(S(False, "a")),)),
        ("t", "aa", (one(S(False, "b")), )),
        ("t", "ab", (one(S(False, "ab"), "+"),)),
        ("t", "ab", (one(L("a")), ((L("a"), ""), (L("b"), "")))),
        ("t", "fr", (one(S(False, "bc")),)),
        ("t", "aa", (((L("a"), ""), (R("fr"), "*")),)),
        ("t", "fr", (((R("aa"), ""), (L("c"), "")),)),
        ("t", "ab", (one(R("nowhere")),)),
        ("g", "start", (("one", one(L("a"))),)),
        ("g", "start", (("two", ((R("aa"), ""), (R("ab"), "?"))),)),
        ("g", "start", ((None, ((R("ab"), "+"), (L("cc"), "?"))), ("three", one(L("ab"))))),
        ("g", "more", (("four", ((L("b"), ""), (R("start"), "*"))),)),
        ("g", "start", (("five", ((R("more"), ""), (R("aa"), ""))),)),
        ("g", "aa", (("six", one(L("a"))),)),
        ("w", (one(L(" ")),)),
        ("w", (one(L("\n")), ((L("c"), ""), (R("fr"), "")))),
        ("w", (one(S(False, "c")),)),
    ]
    texts = [x for x in strings("abc", 3)] + ["a b", "a\nb", "ab ", " c", "abcc", "aacc", "aabbcc"]
    for n in range(1, 5 if t else 4):
        for ds in itertools.permutations(menu, n) if n < 4 else itertools.combinations(menu, n):
            yield ds, None, texts
            if WS not in ds and not any(d[0] == "w" for d in ds) and n < 4:
                yield ds + (WS,), None, texts


def p_orders(t):
    """Sequences of definitions, with repetitions, around one start rule."""
    toks = [
        ("t", "aa", (one(L("a")),)),
        ("t", "aa", (one(S(False, "bc")),)),
        ("t", "ab", (one(S(False, "ab"), "+"),)),
        ("t", "ab", (one(L("ca"), "*"), one(S(False, "c")))),
        ("t", "x", (one(R("aa")), one(L("cb"), "?"))),
        ("w", (one(L(" ")),)),
        ("w", (one(S(False, "b", "c"), "+"),)),
    ]
    starts = [
        ("g", "start", ((None, one(N(one(R("aa")), one(R("ab")), one(L("c"))), "+")),)),
        ("g", "start", (("p", ((R("ab"), "?"), (R("x"), ""))), ("q", one(R("aa"), "+")))),
    ]
    texts = list(strings("abc", 3)) + [" ", "a a", "ca ca b", "cac", "cbcb"]
    for n in range(1, 6 if t else 5):
        for ds in itertools.product(toks, repeat=n):
            for k, s in enumerate(starts):
                for at in {0, n // 2, n} if n < 4 else {(n + k) % 2 * n}:
                    yield ds[:at] + (s,) + ds[at:], None, texts
    # The same for alternatives of grammar rules.
    alts = [one(L("a")), one(L("b")), one(R("start2")), ((L("a"), ""), (L("b"), "")), ((L("a"), ""), (R("start2"), "?"))]
    rest = (("g", "start2", (("k", one(L("b"))), ("l", ((L("a"), ""), (L("c"), ""))))), WS)
    for n in range(1, 4):
        for cs in itertools.product(alts, repeat=n):
            for named in itertools.product((None, "m"), repeat=n):
                al = tuple((None if m is None else f"m{i}", c) for i, (m, c) in enumerate(zip(named, cs)))
                yield (("g", "start", al), *rest), None, texts
                if n > 1:
                    yield tuple(("g", "start", (x,)) for x in al) + rest, None, texts
                    yield (("g", "start", al[:1]), *rest, ("g", "start", al[1:])), None, texts


def p_characters(t):
    """Every character in every spelling, alone, in sets and ranges, and in longer literals."""
    chars = [chr(k) for k in range(32, 127)] + ["\t", "\n", "\r", "é", "ß", "\u2028", "\ufeff", "😀"]
    every = "".join(chars)
    for c in chars:
        near = sorted({c, chr(ord(c) + 1), chr(max(9, ord(c) - 1)), "a", "\\", "\n", "#", "-", "]", "^"})
        texts = near + [c + c, c + "a", "a" + c]
        forms = ["", "e", "U"] + (["u"] if ord(c) < 65536 else []) + (["x"] if ord(c) < 256 else [])
        for form in forms:
            for q in "'\"":
                if c == " ":
                    continue
                ds = (("g", "start", ((None, one(L(c), "+")),)), WS)
                yield ds, ref.render(ds, form, q), texts
                two = (("g", "start", ((None, ((L("<" + c + ">"), ""), (L(c), ""))),)), WS)
                yield two, ref.render(two, form, q), ["<" + c + ">" + c, c, "<>" + c, "<" + c + "> " + c, "<" + c + ">"]
            if c != " ":
                # As a character literal outside of quotes.
                e = ref.esc(c, "#", form)
                if e.startswith("#"):
                    ds = (("g", "start", ((None, one(L(c))),)), WS)
                    yield ds, f"start ::= {e} ; " + ref.render((WS,)), texts
            for inv in (False, True):
                for s in (S(inv, c), S(inv, "az", c), S(inv, c, "09"), S(inv, c + chr(ord(c) + 2)), S(inv, "!" + c) if c > "!" else S(inv, c)):
                    ds = (("g", "start", ((None, one(R("tok"))),)), ("t", "tok", (one(s),)), ("w", (one(L("\u0001")),)))
                    yield ds, ref.render(ds, form), list(every) if c in "-]^\\#a\n" else texts
    ds = (("g", "start", ((None, one(R("tok"))),)), ("t", "tok", (one(S(True)),)), ("w", (one(L("\u0001")),)))
    yield ds, ref.render(ds), list(every)


def p_names(t):
    """Names of rules, tokens and alternatives."""
    names = ["a", "z9", "a-b", "a-", "x0-1", "long-name-of-something", "a1a", "a--b"]
    for a, b, c in itertools.permutations(names, 3):
        ds = (
            ("g", a, ((c, ((L("+"), ""), (R(b), "?"))), (b, one(R(b))))),
            ("t", b, (one(S(False, "az", "09")), one(R(c)))),
            ("t", c, (one(L("!"), "+"), one(L("?")))),
            WS,
        )
        for order in itertools.permutations(ds):
            yield order, None, ["+", "+ q", "+9", "b", "!", "+ !!", "??", "+ -", "A", ""]


def p_misuse(t):
    """Patterns that are wrong wherever they are."""
    bad = [S(False, "za"), S(False, "az", "ba"), S(True, "ba"), R("nowhere"), R("start"), R("tok"), R("other")]
    good = [L("a"), S(False, "b"), S(False), S(True, "ac"), R("part"), N(one(L("c")), one(S(False, "b")))]
    texts = ["", "a", "b", "ab", "ba", "c", "cc", "\n"]
    part = ("t", "part", (one(L("b"), "+"),))
    # One name for a rule and a token.
    both = [("g", "both", ((None, one(L("b"))),)), ("t", "both", (one(S(False, "cd")),)), ("t", "tok", (one(R("both"), "+"),)), ("t", "more", (one(L("c")),))]
    for use in (one(R("both")), ((L("a"), ""), (R("both"), "?")), one(N(one(L("a")), one(R("both")))), one(R("tok")), one(R("more")), one(L("b"))):
        for n in range(1, 5):
            for ds in itertools.permutations(both, n):
                for k in range(n + 1):
                    yield ds[:k] + (("g", "start", ((None, use),)),) + ds[k:] + (WS,), None, texts
                    yield (*ds[:k], WS, *ds[k:], ("g", "start", ((None, use),))), None, texts
    for s in bad + good:
        for wrap in (lambda x: one(x), lambda x: ((L("a"), ""), (x, "?")), lambda x: one(N(one(L("a")), one(x))), lambda x: ((x, ""), (L("b"), ""))):
            c = wrap(s)
            for other in [one(L("c")), one(R("tok")), one(R("part"))]:
                pats = [("t", "tok", (c,)), ("t", "other", (other,))]
                for use in ("tok", "other"):
                    yield (("g", "start", ((None, one(R(use))),)), *pats, part, WS), None, texts
                yield (("g", "start", ((None, ((L("c"), ""), (R("other"), ""))),)), *pats, part, ("w", (one(L("\n")), one(R("tok")))),), None, texts
            yield (("g", "start", ((None, c),)), ("t", "tok", (one(L("c"), "+"),)), ("t", "other", (one(S(False, "de")),)), part, WS), None, texts


def p_spellings(t):
    """Comments, docs, names and white space between all tokens of a grammar."""
    ds = (
        ("g", "start", (("lower-1", ((L("a"), ""), (N(one(R("word")), one(L("b"))), "?"))), (None, one(L("b"), "+")))),
        ("t", "word", (one(S(False, "c")),)),
        ("g", "start", (("last", one(R("word"))),)),
        WS,
    )
    toks = ["start", "::=", '"a"', "(", "word", "|", "'b'", ")", "?", "->", "lower-1", "|", '"b"', "+", ";", "word", ":==", "[c]", ";", "start", "::=", "word", "->", "last", ";", "_", ":==", "' '", "+", ";"]
    texts = list(strings("abc", 3)) + ["a b", "a c "]
    fill = [" ", "\n", "\t \r\n", "/* * / comment ** */", "/**/", "/* ; */ /* \n */", " /***a***/ ", "/** doc \n * more */"]
    docs = [0, 1, 11, 15, 19, 20, 25]
    for i in range(len(toks) + 1):
        for f in fill:
            src = " ".join(toks[:i]) + f + " ".join(toks[i:])
            if "/**" in f and f != "/**/":
                # Documentation: only in front of definitions and alternatives.
                yield ds if i in docs else None, src, texts
            else:
                yield ds, src, texts
    # A minus sign would belong to the name.
    yield ds, "".join(toks).replace("word->", "word ->"), texts


PARTS = [("grammar-rules", p_grammars), ("definitions-in-every-order", p_definitions), ("sequences-of-definitions", p_orders), ("every-character", p_characters), ("spellings", p_spellings), ("names", p_names), ("misuse", p_misuse)]


# Tokenizing with given expressions, and the two front ends.

MENU = [("a", r"a"), ("b", r"b"), ("as", r"a+"), ("ab", r"ab"), ("or", r"a|ab"), ("opt", r"b?"), ("set", r"[ab\n]"), ("long", r"(?:ab)*c"), (None, r"[ c]+"), (None, r"\n")]


def tokenizer_case(rules, text, st):
    compiled = [(n, re.compile(p)) for n, p in rules]
    want, bad, i = [], 0, 0
    while i < len(text):
        ms = [(len(m.group()), -k) for k, (_, p) in enumerate(compiled) if (m := p.match(text[i:]))]
        n, k = max(ms, default=(0, 0))
        if n == 0:
            bad += 1
            n = 1
        elif rules[-k][0] is not None:
            want.append((rules[-k][0], text[i:i + n], ref.loc(text, i), ref.loc(text, i + n)))
        i += n
    d = f"token expressions {rules} text {text!r}"
    st.states += 1
    st.transitions += len(want) + bad
    st.compared += 1
    try:
        _, (toks, failed) = quiet(lambda: drain(B["tokenize"](compiled, text)))
    except (Exception, RecursionError) as e:
        raise Viol(f"tokenizer:{d}", f"{e!r}\n  {d}")
    end = ref.loc(text, len(text))
    if not failed:
        want.append(("EOF", "", end, end))
    elif toks and toks[-1].name == "EOF":
        toks.pop()
    got = [(t.name, t.text, spot(t.span.a), spot(t.span.b)) for t in toks]
    st.outcomes.add((len(want), bad))
    if got != want or failed != (bad > 0):
        raise Viol(f"tokenizer:{d}", f"gives {got}, failed {failed}\n  instead of {want}, {bad} unmatched\n  {d}")


def tokenizer_jobs(t):
    for n in range(0, 4 if t else 3):
        yield from itertools.permutations(MENU, n)
    if not t:
        yield from itertools.combinations(MENU, 3)


SPECIAL = list(":=;_a1-|>?*+()'\"[]^#x/ \n")
KINDS = ["Doc", "Symbol", "ColEqEq", "ColColEq", "Bar", "MinGt", "Qst", "Ast", "Pls", "Lp", "Rp", "StringLiteral", "CharacterSet", "CharacterLiteral", "Sem", "Usc"]


def shape(node):
    return (node.name, node.data if isinstance(node.data, str) else tuple(shape(c) for c in node.data), node.span)


def front_tokens(head, n, st):
    """Both front ends split every text of special characters in the same way."""
    for rest in itertools.product(SPECIAL, repeat=n):
        text = head + "".join(rest)
        st.states += 1
        st.transitions += len(text)
        st.compared += 1
        _, a = quiet(lambda: drain(B["tokenize"](MANUAL[0], text)))
        _, b = quiet(lambda: drain(META.tokenize(text)))
        if a != b:
            raise Viol(f"front-tokens:{text}", f"text {text!r}: by hand {[str(t) for t in a[0]]} {a[1]}, by specification {[str(t) for t in b[0]]} {b[1]}")
        st.outcomes.add(tuple(t.name for t in a[0]))


PATTERN_KINDS = ["Symbol", "Bar", "Pls", "Lp", "Rp", "StringLiteral", "Sem"]


def front_trees(prefix, kinds, n, tail, st):
    """Both front ends build the same tree of every token sequence, or both none."""
    Token, Span, Loc = B["Token"], B["Span"], B["Loc"]
    for rest in itertools.product(kinds, repeat=n):
        names = list(prefix) + list(rest) + list(tail)
        toks = [Token(k, k, Span(Loc(1, i + 1, i), Loc(1, i + 2, i + 1))) for i, k in enumerate(names)]
        toks.append(Token("EOF", "", Span(Loc(1, len(names) + 1, len(names)), Loc(1, len(names) + 1, len(names)))))
        st.states += 1
        st.transitions += len(toks)
        st.compared += 1
        got = []
        for p in (MANUAL[1].parse, META.parse):
            try:
                k, r = quiet(lambda: p(toks))
                got.append((k, shape(r) if k == "ok" else None))
            except (Exception, RecursionError) as e:
                raise Viol(f"front-trees:{names}", f"token sequence {names}: {e!r}")
        if got[0] != got[1]:
            raise Viol(f"front-trees:{names}", f"token sequence {names}: by hand {got[0]}, by specification {got[1]}")
        st.outcomes.add(got[0][0] == "ok" and len(names))
        if got[0][0] == "ok":
            st.bump("accepted")


# Workers.

def work(job):
    global B
    st = Stats()
    t0 = time.time()
    viols = []
    try:
        if B is None:
            warnings.simplefilter("ignore")
            sys.setrecursionlimit(3000)
            signal.signal(signal.SIGALRM, on_alarm)
            # A script that never ends its output fails instead of taking all memory.
            resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
            load()
        kind = job[0]
        if kind == "grammars":
            _, part, k, n, t = job
            for defs, src, texts in itertools.islice(dict(PARTS)[part](t), k, None, n):
                try:
                    case(defs, src or ref.render(defs), texts, st)
                except Viol as v:
                    viols.append((v.key, v.text))
                    if HUNG or len(viols) > 20:
                        break
        elif kind == "tokenizer" and "tokenize" in B:
            _, _, k, n, t = job
            texts = list(strings("abc \n", 4 if not t else 5))
            for rules in itertools.islice(tokenizer_jobs(t), k, None, n):
                for x in texts:
                    tokenizer_case(rules, x, st)
        elif kind == "front-tokens" and MANUAL:
            front_tokens(job[1], job[2], st)
        elif kind == "front-trees" and MANUAL:
            front_trees(*job[1:], st)
    except Viol as v:
        viols.append((v.key, v.text))
    except Engine as e:
        return job, None, [("engine", str(e))], 0
    return job, st, viols, time.time() - t0


def jobs(t):
    W = 24
    for name, _ in PARTS:
        for k in range(W):
            yield "grammars", name, k, W, t
    for k in range(W):
        yield "tokenizer", "tokenizer", k, W, t
    for n in range(3 if not t else 4):
        for c in SPECIAL:
            yield "front-tokens", c, n
    for c in ("'", '"', "[", "#", "/*", "/**", "[^", "#x1", "#u00", "['", "[a-"):
        yield "front-tokens", c, 3 if not t else 4
    for n in range(3 if not t else 4):
        for k in KINDS:
            yield "front-trees", [k], KINDS, n, []
    for n in range(5 if not t else 7):
        for h in (["Symbol", "ColEqEq"], ["Symbol", "ColColEq"], ["Usc", "ColEqEq"], ["Doc", "Symbol", "ColColEq", "Symbol"]):
            yield "front-trees", h, PATTERN_KINDS, n, ["Sem"]
    for n in range(4 if not t else 5):
        yield "front-trees", ["Symbol", "ColColEq", "Symbol"], ["Doc", "Bar", "Symbol", "MinGt", "Qst", "Ast"], n, ["Sem"]


def main():
    tier = sys.argv[1] if len(sys.argv) > 1 else "quick"
    t0 = time.time()
    os.chdir(ROOT)
    os.makedirs("out", exist_ok=True)
    for n in ("", ".2", ".3"):
        if os.path.exists(f"out/{ID}{n}.replay"):
            os.remove(f"out/{ID}{n}.replay")
    os.makedirs("evidence", exist_ok=True)
    known = {}
    for line in open("known_findings.txt", encoding="utf-8"):
        m = re.match(rf"known: property={ID} key=(.*?) # (.*)", line.rstrip("\n"))
        if m:
            known[json.loads(m[1])] = m[2]
    total, parts, viols, samples, outcomes = Stats(), {}, [], [], 0
    seen = set()
    with multiprocessing.Pool(int(os.environ.get("MC_THREADS", "8"))) as pool:
        for job, st, vs, dt in pool.imap_unordered(work, list(jobs(tier == "thorough"))):
            if st is None:
                print(f"ENGINE-ERROR {vs[0][1]}")
                return 3
            viols += vs
            if any("no answer in time" in v[1] or "MemoryError" in v[1] for v in vs):
                pool.terminate()
                break
            p = parts.setdefault(job[1] if job[0] == "grammars" else job[0], [0, 0, 0, 0, 0.0, {}, set()])
            for k, v in enumerate((st.grammars, st.states, st.transitions, st.compared, dt)):
                p[k] += v
            for k, v in st.count.items():
                p[5][k] = p[5].get(k, 0) + v
            p[6] |= st.outcomes
            total.states += st.states
            total.transitions += st.transitions
            total.compared += st.compared
            if len(samples) < 8:
                samples += st.samples[:2]
    lines = [f"{n}: {p[0]} grammars, {p[1]} states, {p[2]} transitions, {p[3]} compared, {len(p[6])} outcomes, {p[4]:.1f}s {json.dumps(p[5])}" for n, p in parts.items()]
    print("\n".join(lines))
    new = 0
    for key, text in sorted(viols):
        if key in known:
            if key not in seen:
                print(f"KNOWN-FINDING: property={ID} {known[key]}")
            seen.add(key)
            continue
        new += 1
        if new <= 3:
            path = f"{ROOT}/out/{ID}{'' if new == 1 else '.' + str(new)}.replay"
            with open(path, "w", encoding="utf-8") as f:
                f.write(f"{text}\nkey={json.dumps(key)}\n")
            print(f"VIOLATION property={ID} replay={path}")
            print(text)
    with open(f"evidence/{ID}.json", "w", encoding="utf-8") as f:
        json.dump({
            "property": ID, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "0")), "level": "model_checking",
            "coverage": {
                "states": total.states, "transitions": total.transitions,
                "traces_validated_against_impl": total.compared,
                "distinct_outcomes": sum(len(p[6]) for p in parts.values()),
                "exhaustive": True, "parts": lines, "samples": samples[:8],
                "violations": new, "known_findings": len(seen),
                "hand_coded_front_end_found": "front-trees" in parts and parts["front-trees"][1] > 0,
            },
            "wall_s": round(time.time() - t0, 1),
        }, f, indent=1)
    print(f"{ID} {tier}: {total.states} states, {total.transitions} transitions, {total.compared} real executions compared, {time.time() - t0:.1f}s, {'violated' if new else 'held'}")
    return 1 if new else 0


if __name__ == "__main__":
    sys.exit(main())

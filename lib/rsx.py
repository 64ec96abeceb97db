"""rsx: a small Rust lexer / item finder used to cut functions out of /repo's
current source, mechanically, on every run.

It never interprets the code.  It finds items by their token sequence (so
whitespace and comments are irrelevant), returns their text verbatim, and
supports token-level rewrites with metavariables.  Anything it cannot find
raises LostAnchor; the driver treats that as "proof not re-established" (never
as an alarm).
"""
import os
import re


class LostAnchor(Exception):
    pass


TOKEN = re.compile(r"""
    (?P<ws>\s+)
  | (?P<lc>//[^\n]*)
  | (?P<bc>/\*)
  | (?P<rstr>b?r(?P<h>\#*)")
  | (?P<str>b?"(?:[^"\\]|\\.)*")
  | (?P<chr>b?'(?:[^'\\\n]|\\(?:x[0-9a-fA-F]{2}|u\{[^}]*\}|.))')
  | (?P<life>'[A-Za-z_][A-Za-z0-9_]*)
  | (?P<num>[0-9][0-9A-Za-z_]*(?:\.[0-9][0-9A-Za-z_]*)?)
  | (?P<id>(?:r\#)?[A-Za-z_\$][A-Za-z0-9_]*)
  | (?P<op>\.\.=|\.\.\.|<<=|>>=|::|->|=>|==|!=|<=|>=|&&|\|\||\+=|-=|\*=|/=|%=|\^=|&=|\|=|\.\.|.)
""", re.X | re.S)


class Tok:
    __slots__ = ("t", "k", "s", "e")

    def __init__(self, t, k, s, e):
        self.t, self.k, self.s, self.e = t, k, s, e

    def __repr__(self):
        return self.t


def lex(text):
    out = []
    i = 0
    n = len(text)
    while i < n:
        m = TOKEN.match(text, i)
        k = m.lastgroup
        if m.group("ws") is not None or m.group("lc") is not None:
            i = m.end()
            continue
        if m.group("bc") is not None:
            depth, j = 1, m.end()
            while depth and j < n:
                if text.startswith("/*", j):
                    depth += 1
                    j += 2
                elif text.startswith("*/", j):
                    depth -= 1
                    j += 2
                else:
                    j += 1
            i = j
            continue
        if m.group("rstr") is not None:
            close = '"' + m.group("h")
            j = text.index(close, m.end()) + len(close)
            out.append(Tok(text[i:j], "str", i, j))
            i = j
            continue
        for k in ("str", "chr", "life", "num", "id", "op"):
            if m.group(k) is not None:
                break
        # ".." after number such as `0..n`
        tt = m.group(0)
        out.append(Tok(tt, k, i, m.end()))
        i = m.end()
    return out


OPEN = {"(": ")", "[": "]", "{": "}"}
CLOSE = {v: k for k, v in OPEN.items()}


def match_delim(toks, i):
    """index of the token closing the delimiter at i"""
    depth = 0
    for j in range(i, len(toks)):
        t = toks[j].t
        if t in OPEN:
            depth += 1
        elif t in CLOSE:
            depth -= 1
            if depth == 0:
                return j
    raise LostAnchor("unbalanced delimiter")


def skip_generics(toks, i):
    """i at '<' : index after matching '>'"""
    depth = 0
    j = i
    while j < len(toks):
        t = toks[j].t
        if t == "<":
            depth += 1
        elif t == ">":
            depth -= 1
            if depth == 0:
                return j + 1
        elif t in OPEN:
            j = match_delim(toks, j)
        j += 1
    raise LostAnchor("unbalanced generics")


def norm(s):
    return " ".join(t.t for t in lex(s))


KW = ("fn", "struct", "enum", "trait", "impl", "mod", "use", "const", "static", "type", "macro_rules", "extern", "union")


class Item:
    def __init__(self, src, kind, name, start, end, attrs, body, toks, t0, t1, key):
        self.src = src
        self.kind = kind
        self.name = name
        self.start = start        # after attributes
        self.end = end
        self.attrs = attrs
        self.body = body          # (tok index of '{', tok index of '}') in src.toks or None
        self.t0, self.t1 = t0, t1  # token range [t0,t1)
        self.key = key            # normalised header
        self._children = None

    @property
    def text(self):
        return self.src.text[self.start:self.end]

    def children(self):
        if self._children is None:
            if self.body is None:
                self._children = []
            else:
                self._children = parse_items(self.src, self.body[0] + 1, self.body[1])
        return self._children

    def child(self, kind, name):
        for c in self.children():
            if c.kind == kind and c.name == name:
                return c
        raise LostAnchor("%s: no %s `%s` in `%s`" % (self.src.path, kind, name, self.key))


def parse_items(src, i, end):
    toks = src.toks
    items = []
    while i < end:
        attrs = []
        while i < end and toks[i].t == "#":
            j = i + 1
            if toks[j].t == "!":
                j += 1
            k = match_delim(toks, j)
            attrs.append(src.text[toks[i].s:toks[k].e])
            i = k + 1
        if i >= end:
            break
        t0 = i
        start = toks[i].s
        # visibility
        if toks[i].t == "pub":
            i += 1
            if toks[i].t == "(":
                i = match_delim(toks, i) + 1
        while toks[i].t in ("unsafe", "async", "default") or (toks[i].t == "const" and toks[i + 1].t in ("fn", "unsafe", "async", "extern")) or (toks[i].t == "extern" and toks[i + 1].k == "str" and toks[i + 2].t == "fn"):
            i += 2 if toks[i].t == "extern" else 1
        kw = toks[i].t
        if kw not in KW:
            # macro invocation or something we do not model: skip to ; or {}
            while i < end and toks[i].t not in (";", "{"):
                if toks[i].t in ("(", "["):
                    i = match_delim(toks, i)
                i += 1
            if i < end and toks[i].t == "{":
                i = match_delim(toks, i)
            i += 1
            continue
        name = toks[i + 1].t if kw != "impl" else None
        # find end: first `;` or `{...}` at depth 0
        j = i + 1
        body = None
        while True:
            if j >= end:
                break
            t = toks[j].t
            if t == ";":
                break
            if t == "{" :
                k = match_delim(toks, j)
                if kw in ("const", "static", "use"):
                    j = k + 1
                    continue
                body = (j, k)
                j = k
                break
            if t in ("(", "["):
                j = match_delim(toks, j)
            j += 1
        e = min(j, end - 1)
        hdr_end = body[0] if body else e
        key = " ".join(t.t for t in toks[i:hdr_end])
        it = Item(src, kw, name, start, toks[e].e, attrs, body, toks, t0, e + 1, key)
        items.append(it)
        i = e + 1
    return items


def strip_generics_header(key):
    """`impl < A > Encode for X < A > where ...` -> `Encode for X < A >`"""
    toks = key.split(" ")
    assert toks[0] == "impl"
    i = 1
    if i < len(toks) and toks[i] == "<":
        d = 0
        while True:
            if toks[i] == "<":
                d += 1
            elif toks[i] == ">":
                d -= 1
                if d == 0:
                    break
            i += 1
        i += 1
    toks = toks[i:]
    if "where" in toks:
        toks = toks[:toks.index("where")]
    return " ".join(toks)


class Src:
    cache = {}

    def __init__(self, path):
        self.path = path
        with open(path, encoding="utf-8") as f:
            self.text = f.read()
        self.toks = lex(self.text)
        self.items = parse_items(self, 0, len(self.toks))

    @classmethod
    def get(cls, root, rel):
        p = os.path.join(root, rel)
        if p not in cls.cache:
            if not os.path.exists(p):
                raise LostAnchor("no file " + rel)
            cls.cache[p] = cls(p)
        return cls.cache[p]

    def item(self, kind, name):
        for it in self.items:
            if it.kind == kind and it.name == name:
                return it
        raise LostAnchor("%s: no %s `%s`" % (self.path, kind, name))

    def impls(self, header):
        """all impl blocks whose header (generics and where stripped) equals `header`"""
        h = norm(header)
        r = [it for it in self.items if it.kind == "impl" and strip_generics_header(it.key) == h]
        if not r:
            raise LostAnchor("%s: no impl `%s`" % (self.path, header))
        return r

    def impl_with(self, header, fn):
        for it in self.impls(header):
            for c in it.children():
                if c.kind == "fn" and c.name == fn:
                    return it
        raise LostAnchor("%s: no fn `%s` in impl `%s`" % (self.path, fn, header))


# ---------------------------------------------------------------- rewriting

def match_pat(pat, toks, i, end, binds):
    """match the token pattern list at toks[i:end]; $name matches a balanced
    non-empty token sequence (shortest first), $name:id one identifier.
    returns end index or None"""
    if not pat:
        return i
    p = pat[0]
    if p.startswith("$"):
        nm, _, cls = p[1:].partition(":")
        if nm in binds:
            s0, e0 = binds[nm]
            seq = [t.t for t in toks[s0:e0]]
            if [t.t for t in toks[i:i + len(seq)]] == seq:
                return match_pat(pat[1:], toks, i + len(seq), end, binds)
            return None
        if cls == "id":
            if i < end and toks[i].k == "id":
                b = dict(binds)
                b[nm] = (i, i + 1)
                r = match_pat(pat[1:], toks, i + 1, end, b)
                if r is not None:
                    binds.update(b)
                return r
            return None
        j = i
        while j < end:
            t = toks[j].t
            if t in CLOSE:
                return None
            if t in OPEN:
                j = match_delim(toks, j)
            elif t == ";" :
                return None
            j += 1
            b = dict(binds)
            b[nm] = (i, j)
            r = match_pat(pat[1:], toks, j, end, b)
            if r is not None:
                binds.clear()
                binds.update(b)
                return r
        return None
    if i < end and toks[i].t == p:
        return match_pat(pat[1:], toks, i + 1, end, binds)
    return None


def pat_tokens(p):
    """pattern text -> token list; $x and $x:id kept as metavariables"""
    out = []
    toks = lex(p)
    i = 0
    while i < len(toks):
        t = toks[i]
        if t.t.startswith("$"):
            if i + 2 < len(toks) and toks[i + 1].t == ":" and toks[i + 2].t == "id" and toks[i + 1].s == t.e:
                out.append(t.t + ":id")
                i += 3
                continue
        out.append(t.t)
        i += 1
    return out


def rewrite(text, pat, repl, count=None, required=False):
    """rewrite every (non-overlapping) occurrence of token pattern `pat` in text.
    repl may use $name.  returns new text"""
    pt = pat_tokens(pat)
    pos = 0
    done = 0
    while True:
        toks = lex(text)
        hit = None
        for i in range(len(toks)):
            if toks[i].s < pos:
                continue
            if not pt[0].startswith("$") and toks[i].t != pt[0]:
                continue
            binds = {}
            r = match_pat(pt, toks, i, len(toks), binds)
            if r is not None:
                hit = (i, r, binds)
                break
        if hit is None:
            break
        i, r, binds = hit

        def sub(m):
            nm = m.group(1)
            if nm not in binds:
                return m.group(0)
            a, b = binds[nm]
            return text[toks[a].s:toks[b - 1].e]
        new = re.sub(r"\$([A-Za-z_][A-Za-z0-9_]*)", sub, repl)
        text = text[:toks[i].s] + new + text[toks[r - 1].e:]
        pos = toks[i].s + len(new)
        done += 1
        if count and done >= count:
            break
    if required and not done:
        raise LostAnchor("pattern not found: " + pat)
    return text


# ---------------------------------------------------------------- functions

class Loop:
    def __init__(self, kind, kw, brace, close, pat=None, expr=None):
        self.kind, self.kw, self.brace, self.close, self.pat, self.expr = kind, kw, brace, close, pat, expr


def find_loops(text):
    """loops of a function text in source order (token scan)"""
    toks = lex(text)
    loops = []
    for i, t in enumerate(toks):
        if t.k != "id" or t.t not in ("for", "while", "loop"):
            continue
        if t.t == "for" and toks[i + 1].t == "<":
            continue
        if i > 0 and toks[i - 1].t in (".", "::"):
            continue
        j = i + 1
        in_at = None
        while j < len(toks):
            if toks[j].t in ("(", "["):
                j = match_delim(toks, j)
            elif toks[j].t == "in" and in_at is None:
                in_at = j
            elif toks[j].t == "{":
                break
            j += 1
        if j >= len(toks):
            continue
        k = match_delim(toks, j)
        pat = expr = None
        if t.t == "for":
            if in_at is None:
                continue
            pat = (toks[i + 1].s, toks[in_at - 1].e)
            expr = (toks[in_at + 1].s, toks[j - 1].e)
        loops.append(Loop(t.t, toks[i], toks[j], toks[k], pat, expr))
    return loops


def split_fn(text):
    """(sig_before_arrow, ret or None, where or '', body) of a function text"""
    toks = lex(text)
    i = 0
    arrow = None
    where = None
    while i < len(toks):
        t = toks[i].t
        if t == "fn" and i + 2 < len(toks) and toks[i + 2].t == "<":
            i = skip_generics(toks, i + 2)
            continue
        if t in ("(", "["):
            i = match_delim(toks, i)
        elif t == "->" and arrow is None:
            arrow = i
        elif t == "where":
            where = i
        elif t in ("{", ";"):
            break
        i += 1
    brace = toks[i].s if i < len(toks) else len(text)
    if i < len(toks) and toks[i].t == ";":
        body = None
    else:
        body = text[brace:]
    w = ""
    hdr_end = brace
    if where is not None:
        w = text[toks[where].s:brace].strip()
        hdr_end = toks[where].s
    if arrow is not None:
        sig = text[:toks[arrow].s].rstrip()
        ret = text[toks[arrow].e:hdr_end].strip()
    else:
        sig = text[:hdr_end].rstrip()
        ret = None
    return sig, ret, w, body


def strip_inner_attrs(text, keep=("cfg",)):
    """drop `#[...]` attributes inside a fn text except cfg"""
    toks = lex(text)
    out = []
    last = 0
    i = 0
    while i < len(toks):
        if toks[i].t == "#" and i + 1 < len(toks) and toks[i + 1].t == "[":
            k = match_delim(toks, i + 1)
            if toks[i + 2].t not in keep:
                out.append(text[last:toks[i].s])
                last = toks[k].e
            i = k + 1
            continue
        i += 1
    out.append(text[last:])
    return "".join(out)


def statements(body):
    """(start, end) character ranges of the top-level statements of a function body `{ ... }`"""
    toks = lex(body)
    end = match_delim(toks, 0)
    out = []
    i = 1
    while i < end:
        st = i
        blockish = toks[i].t in ("if", "match", "for", "while", "loop", "{", "unsafe")
        j = i
        done = False
        while j < end:
            t = toks[j].t
            if t in ("(", "[", "{"):
                k = match_delim(toks, j)
                j = k
                if t == "{" and blockish:
                    nx = toks[j + 1].t
                    if nx not in ("else", ".", "?", ";") and j + 1 <= end:
                        done = True
                        break
            elif t == ";":
                done = True
                break
            j += 1
        if not done:
            break           # tail expression
        out.append((toks[st].s, toks[j].e))
        i = j + 1
    return out


# ---------------------------------------------------------------- Option combinators

def receiver_start(toks, i):
    """toks[i] is the `.` of a method call: index of the first token of its receiver"""
    j = i - 1
    while True:
        t = toks[j]
        if t.t in (")", "]"):
            d, k = 0, j
            while True:
                if toks[k].t in (")", "]", "}"):
                    d += 1
                elif toks[k].t in ("(", "[", "{"):
                    d -= 1
                    if d == 0:
                        break
                k -= 1
            j = k
            if j > 0 and toks[j - 1].k == "id" and toks[j - 1].t not in ("return", "in", "if", "match", "else", "while", "let"):
                j -= 1
            elif j > 0 and toks[j - 1].t == ">":
                raise LostAnchor("turbofish in a combinator chain")
        elif t.t == "?":
            j -= 1
            continue
        elif t.k != "id" and t.k not in ("num", "str"):
            raise LostAnchor("receiver of a combinator not understood: " + t.t)
        if j > 0 and toks[j - 1].t in (".", "::"):
            j -= 2
            continue
        return j


def desugar_options(text, methods=("and_then", "map", "ok_or_else", "ok_or", "unwrap_or_else", "unwrap_or")):
    """Option combinators written out as the match they stand for"""
    n = 0
    while True:
        toks = lex(text)
        hit = None
        for i in range(len(toks) - 2):
            if toks[i].t == "." and toks[i + 1].t in methods and toks[i + 2].t == "(":
                hit = i
                break
        if hit is None:
            return text
        i = hit
        name = toks[i + 1].t
        close = match_delim(toks, i + 2)
        a = toks[i + 3:close]
        if a[0].t == "move":
            a = a[1:]
        s = receiver_start(toks, i)
        recv = text[toks[s].s:toks[i].s].strip()
        n += 1
        v = "v%d__" % n
        if a[0].t in ("|", "||"):
            if a[0].t == "||":
                pat, k = None, 1
            else:
                k = 1
                while a[k].t != "|":
                    k += 1
                pat = text[a[1].s:a[k - 1].e]
                if ":" in pat:
                    pat = pat[:pat.index(":")].strip()
                k += 1
            body = text[a[k].s:a[-1].e].rstrip().rstrip(",")
            if any(t.t in ("?", "return") for t in a[k:]):
                raise LostAnchor("closure with an early exit")
        else:
            pat, body = None, text[a[0].s:a[-1].e].rstrip().rstrip(",")
            if name in ("and_then", "map"):
                pat, body = v, "%s(%s)" % (body, v)
            elif name in ("ok_or_else", "unwrap_or_else", "or_else"):
                body = "%s()" % body
        if name == "and_then":
            new = "(match %s { Some(%s) => %s, None => None })" % (recv, pat, body)
        elif name == "map":
            new = "(match %s { Some(%s) => Some(%s), None => None })" % (recv, pat, body)
        elif name in ("ok_or_else", "ok_or"):
            new = "(match %s { Some(%s) => Ok(%s), None => Err(%s) })" % (recv, v, v, body)
        elif name == "or_else":
            new = "(match %s { Some(%s) => Some(%s), None => %s })" % (recv, v, v, body)
        else:
            new = "(match %s { Some(%s) => %s, None => %s })" % (recv, v, v, body)
        text = text[:toks[s].s] + new + text[toks[close].e:]


# ---------------------------------------------------------------- or-patterns

def split_or_arms(text):
    """`P | Q => B` written out as `P => B, Q => B` (same first-match order)"""
    pos = None
    while True:
        toks = lex(text)
        ms = [i for i, t in enumerate(toks) if t.t == "match" and t.k == "id" and (i == 0 or toks[i - 1].t != ".") and (pos is None or toks[i].s < pos)]
        if not ms:
            return text
        i = ms[-1]
        pos = toks[i].s
        j = i + 1
        while toks[j].t != "{":
            if toks[j].t in ("(", "["):
                j = match_delim(toks, j)
            j += 1
        end = match_delim(toks, j)
        k = j + 1
        edits = []
        while k < end:
            a0 = k
            bars, guard = [], None
            if toks[k].t == "|":
                k += 1
                a0 = k
            while toks[k].t != "=>":
                if toks[k].t in OPEN:
                    k = match_delim(toks, k)
                elif toks[k].t == "|" and guard is None:
                    bars.append(k)
                elif toks[k].t == "if" and guard is None:
                    guard = k
                k += 1
            arrow = k
            k += 1
            b0 = k
            if toks[k].t == "{":
                b1 = match_delim(toks, k)
                k = b1 + 1
                if k < end and toks[k].t == ",":
                    k += 1
            else:
                while k < end and toks[k].t != ",":
                    if toks[k].t in OPEN:
                        k = match_delim(toks, k)
                    k += 1
                b1 = k - 1
                k += 1
            if bars:
                cuts = [a0] + [b + 1 for b in bars]
                ends = [b - 1 for b in bars] + [(guard or arrow) - 1]
                g = " " + text[toks[guard].s:toks[arrow - 1].e] if guard else ""
                body = text[toks[b0].s:toks[b1].e]
                arms = ["%s%s => %s," % (text[toks[x].s:toks[y].e], g, body) for x, y in zip(cuts, ends)]
                e = toks[b1].e
                if b1 + 1 < end and toks[b1 + 1].t == ",":
                    e = toks[b1 + 1].e
                edits.append((toks[a0].s, e, "\n".join(arms)))
        for s, e, t in reversed(edits):
            text = text[:s] + t + text[e:]


def biggest_match(text):
    """(start, end) of the arm bodies of the match with the most arms, in order"""
    toks = lex(text)
    best = []
    for i, t in enumerate(toks):
        if not (t.t == "match" and t.k == "id" and (i == 0 or toks[i - 1].t != ".")):
            continue
        j = i + 1
        while toks[j].t != "{":
            if toks[j].t in ("(", "["):
                j = match_delim(toks, j)
            j += 1
        end = match_delim(toks, j)
        k = j + 1
        arms = []
        while k < end:
            while toks[k].t != "=>":
                if toks[k].t in OPEN:
                    k = match_delim(toks, k)
                k += 1
            k += 1
            b0 = k
            if toks[k].t == "{":
                b1 = match_delim(toks, k)
                k = b1 + 1
                if k < end and toks[k].t == ",":
                    k += 1
            else:
                while k < end and toks[k].t != ",":
                    if toks[k].t in OPEN:
                        k = match_delim(toks, k)
                    k += 1
                b1 = k - 1
                k += 1
            arms.append((toks[b0].s, toks[b1].e))
        if len(arms) > len(best):
            best = arms
    return best


# ---------------------------------------------------------------- write! and writeln!

def desugar_write(text):
    """`write!(out, "a {} b", x)?` written out as the pieces it writes in order: put("a "), show(x), put(" b")"""
    while True:
        toks = lex(text)
        hit = None
        for i in range(len(toks) - 3):
            if toks[i].t in ("write", "writeln", "format") and toks[i + 1].t == "!" and toks[i + 2].t == "(" and toks[i].k == "id":
                hit = i
                break
        if hit is None:
            return text
        i = hit
        close = match_delim(toks, i + 2)
        args, cur, d, j = [], i + 3, 0, i + 3
        while j < close:
            if toks[j].t in OPEN:
                j = match_delim(toks, j)
            elif toks[j].t == ",":
                args.append((cur, j))
                cur = j + 1
            j += 1
        if cur < close:
            args.append((cur, close))
        txt = [text[toks[a].s:toks[b - 1].e] for a, b in args]
        made = toks[i].t == "format"
        if made:
            txt = ["made"] + txt
        out = txt[0]
        fmt = txt[1] if len(txt) > 1 else '""'
        if not (fmt.startswith('"') and fmt.endswith('"')):
            raise LostAnchor("format string is not a literal")
        rest = txt[2:]
        fmt = fmt[1:-1]
        if made and any(re.search(r"\bmade\b", x) for x in rest):
            raise LostAnchor("name clash in format!")
        pieces, lit, k, nxt = [], "", 0, 0

        def flush():
            nonlocal lit
            if lit:
                pieces.append('%s.put("%s")?;' % (out, lit))
            lit = ""
        while k < len(fmt):
            c = fmt[k]
            if c == "\\":
                # \u{..} and the one-character escapes
                m = re.match(r"\\u\{[0-9a-fA-F]+\}|\\.", fmt[k:])
                lit += m.group(0)
                k += len(m.group(0))
            elif fmt[k:k + 2] in ("{{", "}}"):
                lit += c
                k += 2
            elif c == "{":
                e = fmt.index("}", k)
                spec = fmt[k + 1:e]
                flush()
                if spec == "":
                    pieces.append("%s.show(&(%s))?;" % (out, rest[nxt]))
                    nxt += 1
                elif re.fullmatch(r"[A-Za-z_]\w*", spec):
                    pieces.append("%s.show(&(%s))?;" % (out, spec))
                elif spec == ":.*":
                    pieces.append("%s.fixed(%s, *%s)?;" % (out, rest[nxt], rest[nxt + 1]))
                    nxt += 2
                elif spec == "0:1$":
                    pieces.append("%s.padded(%s, %s)?;" % (out, rest[0], rest[1]))
                    nxt = 2
                elif spec in (":?", ":#?"):
                    pieces.append("%s.debug(&(%s))?;" % (out, rest[nxt]))
                    nxt += 1
                else:
                    raise LostAnchor("format directive {%s}" % spec)
                k = e + 1
            else:
                lit += c
                k += 1
        if toks[i].t == "writeln":
            lit += "\\n"
        flush()
        end = toks[close].e
        if made:
            new = "{ let mut made = Made::new(); %s made.done() }" % " ".join(re.sub(r"\?;$", ";", x) for x in pieces)
        elif close + 1 < len(toks) and toks[close + 1].t == "?":
            end = toks[close + 1].e
            new = "({ %s })" % " ".join(pieces)
        else:
            new = "({ %s Ok::<(), IoError>(()) })" % " ".join(pieces)
        text = text[:toks[i].s] + new + text[end:]

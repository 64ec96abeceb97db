"""vgen: assemble a Verus file from /repo's current source plus contracts.

Executable text comes verbatim from /repo; what is added are specification
clauses.  What is dropped or changed is limited to (listed in DESIGN.md):
  D1 attributes other than cfg (derive, inline, allow, error, bits, strum, ...)
  D2 visibility (everything is made `pub`)
  D3 the rewrites a unit registers explicitly (Unit.rewrites_used lists the
     ones that fired on this run, with their text)
"""
import re
from rsx import (Src, LostAnchor, lex, match_delim, norm, rewrite, find_loops, split_fn, strip_inner_attrs, statements, desugar_options, split_or_arms, biggest_match, desugar_write)

REPO = "/repo"


class F:
    """contract for one function"""

    def __init__(self, contract="", ret="r", loops=None, pre="", rw=None, mode=None, attrs="", post="", sig_rw=None, props=None, after=None, opt=(), split_or=False, cases=0, pieces=False):
        self.contract = contract
        self.ret = ret
        self.loops = loops          # None: function must contain no loop
        self.pre = pre              # ghost text at function start
        self.post = post            # ghost text before the last `Ok(())`-like tail (see emit)
        self.rw = rw or []          # [(pattern, replacement)] or [(p, r, required)]
        self.mode = mode
        self.attrs = attrs
        self.sig_rw = sig_rw or []
        self.props = props
        self.opt = opt              # Option combinators to write out as matches
        self.split_or = split_or    # write or-pattern arms out one by one
        self.cases = cases          # >0: verify the arms of the biggest match in that many groups
        self.pieces = pieces        # write!/writeln! written out as the pieces they write
        self.after = after or []    # [(regex on a normalised top-level statement, ghost text placed after it)]; no match: no hint


class L:
    """loop annotation"""

    def __init__(self, kind, inv, dec="", it=None, pre="", post="", start="", exc="", ens="", done=""):
        self.kind, self.inv, self.dec, self.it, self.pre, self.post = kind, inv, dec, it, pre, post
        self.start, self.exc, self.ens = start, exc, ens
        self.done = done            # ghost text behind the loop


class Unit:
    def __init__(self, name, repo=REPO):
        self.name = name
        self.repo = repo
        self.parts = []
        self.fns = []            # functions under contract (verified here)
        self.assumed = []        # contracts assumed here, verified elsewhere or external
        self.rewrites_used = {}
        self.lemmas = []
        self.global_rw = []
        self.force_assume = {}   # where -> reason: proof not available on this tree (tool limit)
        self.fell_back = {}
        self.default_mode = None
        self.vacuity = False     # plant assert(false) at the start of every function under contract

    def raw(self, text):
        self.parts.append(text)
        return self

    def src(self, rel):
        return Src.get(self.repo, rel)

    # -------------------------------------------------------------- text
    def _rw(self, text, rws, where):
        for r in rws:
            pat, rep = r[0], r[1]
            required = len(r) > 2 and r[2]
            new = rewrite(text, pat, rep, required=required)
            if new != text:
                self.rewrites_used.setdefault("%s  =>  %s" % (pat, rep), []).append(where)
            text = new
        return text

    def fn_text(self, item, spec, where, in_trait_impl=False, trait_decl=False):
        try:
            if where in self.force_assume:
                raise LostAnchor(self.force_assume[where])
            t = self._fn_text(item, spec, where, in_trait_impl, trait_decl)
        except LostAnchor as e:
            if spec.mode == "assume":
                raise
            # the contract stays, the body is not brought under the verifier: recorded as unproved
            self.fell_back[where] = str(e)
            if where in self.fns:
                self.fns.remove(where)
            s2 = F(spec.contract, ret=spec.ret, mode="assume", attrs=spec.attrs, sig_rw=spec.sig_rw)
            t = self._fn_text(item, s2, where, in_trait_impl, trait_decl)
        return "//@fn %s\n%s\n//@end" % (where, t)

    def _fn_text(self, item, spec, where, in_trait_impl=False, trait_decl=False):
        text = strip_inner_attrs(item.text)
        text = self._rw(text, self.global_rw, where)
        text = self._rw(text, spec.rw, where)
        if spec.opt:
            new = desugar_options(text, spec.opt)
            if new != text:
                self.rewrites_used.setdefault("Option combinators (%s) written out as the match they stand for" % ", ".join(spec.opt), []).append(where)
            text = new
        if spec.pieces:
            new = desugar_write(text)
            if new != text:
                self.rewrites_used.setdefault("write!/writeln! written out as the pieces they write, in order", []).append(where)
            text = new
        if spec.split_or:
            new = split_or_arms(text)
            if new != text:
                self.rewrites_used.setdefault("`P | Q => B` written out as one arm per alternative", []).append(where)
            text = new
        sig, ret, wh, body = split_fn(text)
        for a, b in spec.sig_rw:
            hit = rewrite(sig, a, b) != sig or (ret is not None and rewrite(ret, a, b) != ret)
            if not hit:
                raise LostAnchor("%s: signature changed (no %s)" % (where, a))
            sig = rewrite(sig, a, b)
            if ret is not None:
                ret = rewrite(ret, a, b)
            if wh:
                wh = rewrite(wh, a, b)
        sig = re.sub(r"^pub\s*(\([^)]*\))?\s*", "", sig)
        sig = re.sub(r"^const\s+fn", "fn", sig)
        pub = "" if (in_trait_impl or trait_decl) else "pub "
        out = []
        mode = spec.mode or self.default_mode or "verify"
        if spec.attrs:
            out.append(spec.attrs)
        if mode == "assume" and body is not None:
            out.append("#[verifier::external_body]")
        r = ""
        if ret is not None:
            r = " -> (%s: %s)" % (spec.ret, ret)
        elif spec.contract and "ensures" in spec.contract and re.search(r"\b%s\b" % re.escape(spec.ret), ""):
            r = " -> (%s: ())" % spec.ret
        out.append(pub + sig + r)
        if wh:
            out.append(wh.rstrip().rstrip(",") + ",")
        if spec.contract:
            out.append("    " + spec.contract.strip())
        if body is None:
            out.append(";")
            return "\n".join(out)
        if mode == "assume":
            out.append("{ unimplemented!() }")
            self.assumed.append(where)
            return "\n".join(out)
        self.fns.append(where)
        if spec.after and mode == "verify":
            for s, e in reversed(statements(body)):
                for rx, g in spec.after:
                    if re.search(rx, norm(body[s:e])):
                        body = body[:e] + "\n        " + g + body[e:]
                        break
        body = self._loops(body, spec, where)
        vac = "proof { assert(false); /*vacuity*/ }" if self.vacuity else ""
        if spec.pre or vac:
            body = "{\n    " + spec.pre + vac + body[1:]
        out.append(body)
        if spec.cases:
            return self._cases(out, spec, where)
        return "\n".join(out)

    def _cases(self, out, spec, where):
        """a long match, verified some arms at a time: each copy of the function assumes control is not in the other arms;
        together the copies cover every arm; callers see the contract"""
        body = out[-1]
        arms = biggest_match(body)
        size = max(1, -(-len(arms) // spec.cases))
        copies = []
        for n, a in enumerate(range(0, max(1, len(arms)), size)):
            b = body
            for k in range(len(arms) - 1, -1, -1):
                if not a <= k < a + size:
                    b = b[:arms[k][0]] + "{ proof { assume(false); } elsewhere() }" + b[arms[k][1]:]
            head = [re.sub(r"\bfn (\w+)", r"fn \1_part%d" % n, x, count=1) if re.match(r"(pub )?fn ", x) else x for x in out[:-1]]
            copies.append("\n".join(head + [b]))
        self.rewrites_used.setdefault("a function of many match arms is verified some arms at a time (one copy per group, together all arms)", []).append(where)
        return "\n".join(copies) + "\n" + "\n".join(["#[verifier::external_body]"] + out[:-1] + ["{ unimplemented!() }"])

    def _loops(self, body, spec, where):
        loops = find_loops(body)
        want = spec.loops or []
        if len(loops) != len(want) or any(a.kind != b.kind for a, b in zip(loops, want)):
            raise LostAnchor("%s: loops changed (found %s, annotated %s)" % (where, [l.kind for l in loops], [l.kind for l in want]))
        edits = []
        for l, a in zip(loops, want):
            ann = ""
            if a.exc:
                ann += "\n invariant_except_break " + a.exc.strip().rstrip(",") + ","
            if a.inv:
                ann += "\n invariant " + a.inv.strip().rstrip(",") + ","
            if a.ens:
                ann += "\n ensures " + a.ens.strip().rstrip(",") + ","
            if a.dec:
                ann += "\n decreases " + a.dec + ","
            if l.kind == "for" and a.it:
                edits.append((l.expr[0], l.expr[0], a.it + ": "))
            if a.pre:
                edits.append((l.kw.s, l.kw.s, a.pre + "\n"))
            edits.append((l.brace.s, l.brace.s, ann + "\n"))
            edits.append((l.brace.e, l.brace.e, a.start))
            if a.post:
                edits.append((l.close.s, l.close.s, a.post))
            if a.done:
                edits.append((l.close.e, l.close.e, a.done))
        for s, e, t in sorted(edits, key=lambda x: -x[0]):
            body = body[:s] + t + body[e:]
        return body

    # -------------------------------------------------------------- items
    def struct(self, rel, name, attrs="", rw=()):
        it = self.src(rel).item("struct", name)
        t = self._pub_fields(strip_inner_attrs(it.text, keep=()))
        t = self._rw(t, list(rw), "%s::%s" % (rel, name))
        self.raw(attrs + "\n" + t)
        return it

    def enum(self, rel, name, attrs="", rw=()):
        it = self.src(rel).item("enum", name)
        t = strip_inner_attrs(it.text, keep=())
        t = re.sub(r"^pub\s*(\([^)]*\))?\s*", "", t)
        t = self._rw(t, list(rw), "%s::%s" % (rel, name))
        self.raw(attrs + "\npub " + t)
        return it

    def _pub_fields(self, t):
        t = re.sub(r"^pub\s*(\([^)]*\))?\s*", "", t)
        toks = lex(t)
        # tuple struct or braces: find the first ( or { after name/generics
        i = 2
        from rsx import skip_generics
        if toks[i].t == "<":
            i = skip_generics(toks, i)
        while i < len(toks) and toks[i].t not in ("(", "{", ";"):
            i += 1
        if i >= len(toks) or toks[i].t == ";":
            return "pub " + t
        end = match_delim(toks, i)
        pos = []
        j = i + 1
        start = True
        ang = 0
        while j < end:
            if start:
                if toks[j].t != "pub":
                    pos.append((toks[j].s, toks[j].s))
                else:
                    e = j
                    if toks[j + 1].t == "(":
                        e = match_delim(toks, j + 1)
                    pos.append((toks[j].s, toks[e].e))
                    j = e
                start = False
            if toks[j].t in ("(", "[", "{"):
                j = match_delim(toks, j)
            elif toks[j].t == "<":
                ang += 1
            elif toks[j].t == ">":
                ang -= 1
            elif toks[j].t == "," and ang == 0:
                start = True
            j += 1
        for s, e in reversed(pos):
            t = t[:s] + "pub " + t[e:]
        return "pub " + t

    def _header(self, it, rw=()):
        toks = it.src.toks
        b = it.body[0]
        # from the `impl`/`trait` keyword to the brace
        i = it.t0
        while toks[i].t not in ("impl", "trait"):
            i += 1
        h = it.src.text[toks[i].s:toks[b].s].rstrip()
        for a, c in rw:
            h = rewrite(h, a, c)
        return h

    def impl(self, rel, header, fns, extra="", mode=None, consts=(), types=(), hdr_rw=(), want_all=False, hdr=None):
        """emit impl block `header` with the named functions"""
        src = self.src(rel)
        if fns:
            it = src.impl_with(header, next(iter(fns)))
        else:
            it = src.impls(header)[0]
        h = hdr or self._header(it, hdr_rw)
        is_trait = " for " in (" " + norm(header) + " ")
        out = [h + " {"]
        for c in consts:
            k = it.child("const", c)
            out.append(("" if is_trait else "pub ") + re.sub(r"^pub\s*(\([^)]*\))?\s*", "", k.text))
        for c in types:
            out.append(it.child("type", c).text)
        out.append(extra)
        for n, s in fns.items():
            ch = it.child("fn", n)
            if mode and s.mode is None:
                s.mode = mode
            out.append(self.fn_text(ch, s, "%s::<%s>::%s" % (rel, header, n), in_trait_impl=is_trait))
        out.append("}")
        self.raw("\n".join(out))
        return it

    def trait(self, rel, name, fns, extra="", mode=None, hdr_rw=(), drop=()):
        it = self.src(rel).item("trait", name)
        h = self._header(it, hdr_rw)
        out = ["pub " + h + " {", extra]
        have = [c.name for c in it.children() if c.kind == "fn"]
        for n, s in fns.items():
            ch = it.child("fn", n)
            if mode and s.mode is None:
                s.mode = mode
            out.append(self.fn_text(ch, s, "%s::trait %s::%s" % (rel, name, n), trait_decl=True))
        out.append("}")
        self.raw("\n".join(out))

    def fn(self, rel, name, spec):
        it = self.src(rel).item("fn", name)
        self.raw(self.fn_text(it, spec, "%s::%s" % (rel, name)))

    def consts(self, rel):
        """the names of the constants declared at the top level of the file"""
        return [i.name for i in self.src(rel).items if i.kind == "const" and i.name != "_"]

    def const(self, rel, name):
        it = self.src(rel).item("const", name)
        self.raw("pub " + re.sub(r"^pub\s*(\([^)]*\))?\s*", "", it.text))

    def render(self):
        body = "\n\n".join(self.parts)
        # one module-level `broadcast use`, collected from the column-0 ones
        uses = re.findall(r"(?m)^broadcast use ([^;]+);$", body)
        body = re.sub(r"(?m)^broadcast use [^;]+;$", "", body)
        if uses:
            body += "\n\nbroadcast use { %s };" % ", ".join(dict.fromkeys(uses))
        return "#![feature(allocator_api)]\n#![allow(unused, dead_code, non_snake_case, non_camel_case_types, unreachable_code)]\n" \
            "use vstd::prelude::*;\nuse vstd::std_specs::convert::*;\nuse std::fmt::Debug;\nuse std::marker::PhantomData;\n" \
            "verus! {\n" + body + "\n} // verus!\nfn main() {}\n"

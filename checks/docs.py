"""Checks decided with VxDoc: the documentation page and the texts it is made of."""
import collections
import glob
import html.parser
import os
import re

import vxlib

INVS = ["OnceInv", "LandInv", "ReachInv", "Emit"]
SYMS = {"LT": "<b>", "GT": ">", "AMP": "&", "AMPLT": "&lt;", "QT": '"', "SQ": "'", "NL": "\n", "CLOSE": ")", "ENDC": "*/", "ENDDIV": "</div>",
        "DASH": "-->", "E9": "é", "TAB": "\t", "SEMI": ";//", "BRACE": "]}", "SLASH": "\\u002a/"}


def raw(s):
    return "".join(SYMS.get(x, x) for x in s)


def text(s):
    return '"%s"' % raw(s).replace('"', '\\"')


def same(a, b):
    """How a backslash and the blanks around a text are shown is not specified."""
    n = lambda t: re.sub(r"\s*\n\s*", "\n", t.replace("\\", "")).strip()
    return n(a) == n(b)


class Program:
    def __init__(self, trace, plain=False):
        self.plain = plain   # a type allows one type only, as compiled programs need
        self.pkgs = trace["pkgs"]
        self.page = trace["page"]
        self.src = {}     # id -> source text
        self.decl = {}    # id -> declaration
        self.files = {}
        # the project is about what its first packages are about
        self.about, self.author = raw(self.pkgs[0]["doc"]), raw(self.pkgs[1]["doc"])
        for p, pkg in enumerate(self.pkgs, 1):
            self.files[self.name(p)] = self.package(p, pkg)

    @staticmethod
    def name(p):
        return "vp/d%d" % p

    def ref(self, r, p):
        if r["pkg"] in (0, p):
            return r["name"]
        return "l%d/%s" % (r["pkg"], r["name"])

    def refid(self, r):
        return "type_%s/%s" % ("vx/core" if r["pkg"] == 0 else self.name(r["pkg"]), r["name"])

    def id(self, i):
        kind, p, name, over = i
        p = "vx/core" if p == "0" else self.name(int(p))
        if kind == "pkg":
            return "pkg_" + p
        return "%s_%s/%s%s" % (kind, p, name, "_" + over if over != "0" else "")

    def package(self, p, pkg):
        out = []
        used = set()
        for d in pkg["decls"]:
            t = self.decltext(p, d)
            i = self.id((d["kind"], str(p), d["name"], str(d["over"])))
            self.src[i], self.decl[i] = t, d
            used |= {r["pkg"] for r in [x["ref"] for x in d["rows"]] + [d["ref"]] + d["more"] + d["bars"]}
            out.append(t + "\n")
        head = "(package %s" % self.name(p)
        if pkg["doc"]:
            head += "\n :doc " + text(pkg["doc"])
        libs = sorted(used - {0, p})
        if libs:
            head += "\n :libs" + "".join("\n  (lib l%d :path %s)" % (q, self.name(q)) for q in libs)
        self.src["pkg_" + self.name(p)] = head + ")\n\n" + "\n".join(out)
        return head + ")\n\n" + "\n".join(out)

    def decltext(self, p, d):
        note = {1: "", 2: "\n // a <note> & more", 3: "\n\n"}[d["note"]]
        doc = "\n :doc " + text(d["doc"]) if d["doc"] else ""
        rows = "\n   ".join("%s : %s%s%s" % (r["name"], self.ref(r["ref"], p), " :default" if r["last"] else "", " :doc " + text(r["doc"]) if r["doc"] else "")
                            for r in d["rows"])
        if d["kind"] == "type":
            if d["form"] == "struct":
                return "(type %s : struct%s\n :properties\n  [%s]%s)" % (d["name"], note, rows, doc)
            more, bars = ([], []) if self.plain else (d["more"], d["bars"])
            names = lambda rs: " ".join(self.ref(r, p) for r in rs)
            return "(type %s : %s%s\n :allowtypes [%s]%s%s)" % (d["name"], d["form"], note, names([d["ref"]] + more),
                                                              "\n :disallowtypes [%s]" % names(bars) if bars else "", doc)
        value = {"int": "7", "string": '"a <text>"', "boolean": "true"}[d["form"]]
        if d["kind"] == "const":
            return "(const %s : %s%s\n %s%s)" % (d["name"], d["form"], note or "", value, doc)
        alias = '\n :alias "%s"' % d["alias"] if d["alias"] else ""
        tests = "".join("\n :test %s" % self.test(d, t) for t in d["tests"])
        return "(func %s : %s%s\n [%s]\n %s%s%s%s)" % (d["name"], d["form"], alias, rows, note.strip("\n") + ("\n " if note else "") + value, doc, "", tests)

    @staticmethod
    def test(d, t):
        return "(test %s\n  (string %s))" % (text(t["text"]), text(t["text"]))


class Page(html.parser.HTMLParser):
    """entries: id -> {txt: [...], td rows, links, tests, source}; nav links; onclick targets."""
    def __init__(self, t):
        super().__init__(convert_charrefs=True)
        self.entries, self.ids, self.stack, self.nav = {}, [], [], []
        self.all = []
        self.cur = None
        self.bad = None
        try:
            self.feed(t)
            self.close()
        except IndexError:
            self.bad = self.bad or "a part of a table stands outside it, after %s" % (self.cur and self.cur["id"])

    VOID = {"meta", "br", "input", "link", "img"}
    KNOWN = {"html", "head", "meta", "title", "style", "script", "body", "noscript", "div", "ul", "li", "span", "details", "summary"}

    def handle_starttag(self, tag, attrs):
        a = dict(attrs)
        if tag not in self.KNOWN:
            self.bad = self.bad or "the page has a tag <%s> in %s" % (tag, self.cur and self.cur["id"])
        if tag in self.VOID:
            return
        if "id" in a:
            self.ids.append(a["id"])
        self.stack.append((tag, a.get("class"), a.get("id")))
        if a.get("class") == "d":
            if self.cur:
                self.bad = self.bad or "the entry %s is inside the entry %s" % (a.get("id"), self.cur["id"])
            self.cur = {"id": a.get("id"), "rows": [], "txt": [], "tests": [], "source": [], "labels": [], "links": [], "depth": len(self.stack)}
            self.entries.setdefault(a.get("id"), self.cur)
        link = None
        if "onclick" in a:
            m = re.fullmatch(r"docjs\.navigate\('(.*)'\)", a["onclick"], re.S)
            link = m.group(1) if m else a["onclick"]
            self.all.append((link, self.cur and self.cur["id"]))
            if self.cur:
                self.cur["links"].append(link)
            elif tag in ("li", "span"):
                self.nav.append([link, ""])
        if self.cur:
            c = a.get("class")
            if c == "tr":
                self.cur["rows"].append([])
            elif c == "td":
                if self.cur["rows"]:
                    self.cur["rows"][-1].append(["", []])
            elif c == "txt":
                self.cur["txt"].append(["", []])
            elif c == "lbl":
                self.cur["labels"].append("")
            elif c == "test":
                self.cur["tests"].append("")
            elif c == "source":
                self.cur["source"].append("")
            if link:
                kinds = [s[1] for s in self.stack]
                if "td" in kinds and self.cur["rows"]:
                    self.cur["rows"][-1][-1][1].append(link)
                elif "txt" in kinds:
                    self.cur["txt"][-1][1].append(link)

    def handle_endtag(self, tag):
        if tag in self.VOID:
            return
        if not self.stack or self.stack[-1][0] != tag:
            self.bad = self.bad or "</%s> does not match in %s" % (tag, self.cur and self.cur["id"])
            return
        self.stack.pop()
        if self.cur and len(self.stack) < self.cur["depth"]:
            self.cur = None

    def handle_data(self, data):
        kinds = [s[1] for s in self.stack]
        if self.cur is None:
            if self.nav and any(k in ("nconst", "nfunc", "ntype", "npackage") for k in kinds):
                self.nav[-1][1] += data
            return
        if "td" in kinds:
            if self.cur["rows"]:
                self.cur["rows"][-1][-1][0] += data
        elif "txt" in kinds:
            self.cur["txt"][-1][0] += data
        elif "lbl" in kinds:
            self.cur["labels"][-1] += data
        elif "test" in kinds:
            self.cur["tests"][-1] += data
        elif "source" in kinds:
            self.cur["source"][-1] += data


def library(repo):
    """(kind, package, name, over) -> source text of every declaration of the library."""
    out = {}
    root = os.path.join(repo, "dist", "vxlisp")
    for path in sorted(glob.glob(os.path.join(root, "vx", "**", "*.vxlisp"), recursive=True)):
        pkg = os.path.relpath(path, root)[:-7]
        seen = collections.Counter()
        with open(path, encoding="utf-8") as f:
            text = f.read()
        # declarations inside comments are none
        mask = re.sub(r"(?ms)^/\*.*?\*/", lambda m: re.sub(r"\S", " ", m.group()), text)
        starts = [m.start() for m in re.finditer(r"(?m)^\((?=(?:package|type|const|func)\s)", mask)] + [len(text)]
        for a, b in zip(starts, starts[1:]):
            t = text[a:b]
            m = re.match(r"\((package|type|const|func)\s+([^\s)]+)", t)
            if not m:
                continue
            kind, name = m.groups()
            if kind == "package":
                out["pkg_" + pkg] = None
                continue
            n = seen[kind, name]
            seen[kind, name] += 1
            out["%s_%s/%s%s" % (kind, pkg, name, "_%d" % n if n else "")] = t
    return out


def judge(ctx, prog, page, lib):
    if page.bad:
        ctx.fail("the page is not well formed: " + page.bad)
        return
    if page.stack:
        ctx.fail("the page does not close %s" % (page.stack[-1],))
    n = collections.Counter(page.ids)
    for i, k in n.items():
        if k > 1:
            ctx.fail("the page has %d entries under the id %s" % (k, i))
    due = set(prog.src) | set(lib)
    have = {i[2:] for i in page.entries if i != "d_prj"}
    for i in sorted(due - have)[:8]:
        ctx.fail("%s has no entry on the page" % i, prog.src.get(i))
    for i in sorted(have - due)[:8]:
        ctx.fail("the page has an entry %s of something that is not declared" % i)
    for link, where in page.all:
        if "d_" + link not in page.entries:
            ctx.fail("a link in %s leads to %s, which has no entry" % (where or "the index", link))
    nav = collections.Counter(l for l, _ in page.nav)
    for i in sorted(due):
        if nav[i] != 1:
            ctx.fail("%s is %d times in the index" % (i, nav[i]))
    e = page.entries.get("d_prj")
    if e is None:
        ctx.fail("the page has no entry for the project")
    else:
        due = {"Project Name:": "verif", "Author:": prog.author, "Description:": prog.about}
        shown = dict(zip([l for l in e["labels"] if l not in ("Paths:", "Libraries:", "Commands:", "Packages:", "Source Code:")], [t[0] for t in e["txt"]]))
        for l, t in due.items():
            if l in shown and not same(shown[l], t):
                ctx.fail("the project's %s is shown as %r where %r is due" % (l[:-1].lower(), shown[l], t))
        for row in (("doc", ":doc", "../out/doc"), ("cpprandom", ":cpp", "<random>")):
            if list(row) not in [[c[0] for c in r][:3] for r in e["rows"]]:
                ctx.fail("the project's entry lacks %s" % (row,))
    by = {prog.id(e["id"]): e for e in prog.page}
    for i, src in prog.src.items():
        e = page.entries.get("d_" + i)
        if e is None:
            continue
        bad = lambda what, got, want: ctx.fail("the entry %s shows %s as %r where %r is due" % (i, what, got, want), src)
        links = set(prog.id(l) for l in by[i]["links"])
        p = int(by[i]["id"][1])
        if i.startswith("pkg_"):
            inside = set(e["links"]) - {i}
            if inside != links:
                bad("its declarations", sorted(inside), sorted(links))
            doc = prog.pkgs[p - 1]["doc"]
            if not same(e["txt"][0][0], raw(doc)):
                bad("its text", e["txt"][0][0], raw(doc))
            if not same("".join(e["source"]), src):
                bad("its source", "".join(e["source"]), src)
            continue
        d = prog.decl[i]
        if not same(e["txt"][0][0], raw(d["doc"])):
            bad("its text", e["txt"][0][0], raw(d["doc"]))
        if e["txt"][1][0].replace(" (alias: %s)" % d["alias"], "") != d["name"] or (d["alias"] and d["alias"] not in e["txt"][1][0]):
            bad("its name", e["txt"][1][0], d["name"])
        if "".join(e["source"]).strip() != src.strip():
            bad("its source", "".join(e["source"]), src)
        if [x.replace("\\", "") for x in e["tests"]] != [prog.test(d, t).replace("\\", "") for t in d["tests"]]:
            bad("its tests", e["tests"], [prog.test(d, t) for t in d["tests"]])
        if d["kind"] != "type":
            t = e["txt"][2]
            if t[1] != [prog.refid(d["ref"])]:
                bad("its type", t[1], prog.refid(d["ref"]))
        else:
            if d["form"] not in e["txt"][2][0]:
                bad("what it extends", e["txt"][2][0], d["form"])
            rest = [l for x in e["txt"][3:] for l in x[1]]
            want = [prog.refid(r) for r in [d["ref"]] + d["more"] + d["bars"]] if d["form"] != "struct" else []
            if rest != want:
                bad("its allowed and disallowed types", rest, want)
        if len(e["rows"]) != len(d["rows"]):
            bad("its parts", [r[0][0] for r in e["rows"]], [r["name"] for r in d["rows"]])
            continue
        for got, r in zip(e["rows"], d["rows"]):
            if got[0][0] != r["name"]:
                bad("a part", got[0][0], r["name"])
            elif got[1][1] != [prog.refid(r["ref"])]:
                bad("the type of %s" % r["name"], got[1][1], prog.refid(r["ref"]))
            elif not same(got[2][0], raw(r["doc"])):
                bad("the text of %s" % r["name"], got[2][0], raw(r["doc"]))
            elif d["kind"] == "type" and got[-1][0] != ("true" if r["last"] else "false"):
                bad("whether %s is the default" % r["name"], got[-1][0], r["last"])
    for i, src in lib.items():
        e = page.entries.get("d_" + i)
        if e is None or src is None:
            continue
        t = "".join(e["source"]).strip()
        if not (src.startswith(t) and not re.sub(r"(?s)/\*.*?\*/|//[^\n]*", "", src[len(t):]).strip()):
            ctx.fail("the entry %s shows as its source %r where %r is due" % (i, t[:300], src[:300]))


def build(ctx, prog):
    """The program with all its texts compiles, and its constants are what they are without them."""
    work = vxlib.newwork("docrun")
    try:
        b = vxlib.Bundle(work)
        for name, t in prog.files.items():
            b.add_package(name, t)
        want = {}
        main = "(package vp/main\n :libs" + "".join("\n  (lib l%d :path %s)" % (p, prog.name(p)) for p in range(1, len(prog.pkgs) + 1)) + ")\n"
        for i, d in prog.decl.items():
            if d["kind"] != "const":
                continue
            fn = "t%d" % len(want)
            p = int(re.search(r"vp/d(\d+)/", i).group(1))
            main += "\n(func %s : string\n []\n (string l%d/%s))\n" % (fn, p, d["name"])
            want[fn] = {"int": "7", "string": "a <text>"}[d["form"]]
            b.add_test(fn, "vp/main", fn)
        b.add_package("vp/main", main)
        rc, o, e = b.generate()
        if rc != 0 or "Error" in o + e:
            ctx.fail("a program with texts about its declarations is rejected", (o + e)[:1500])
            return 0
        for lang in vxlib.CMDS:
            try:
                res = getattr(b, "run_" + lang)()
            except vxlib.BuildFail as f:
                ctx.fail("[%s] a program with these texts about its declarations does not compile:\n%s" % (lang, f.log[:1500]), "\n".join(prog.files.values()))
                continue
            for fn, w in want.items():
                if res[fn].get("r") != w:
                    ctx.fail("[%s] with texts about its declarations a constant is %s where %s is due" % (lang, res[fn], w))
        return len(want) * 3
    finally:
        vxlib.rmwork(work)


def pages(ctx):
    """P28: the documentation page has one entry for each declaration, with its texts as written, and links that lead to what they name."""
    n, size, most = (6, 4, 9) if ctx.quick else (60, 5, 11)
    traces = ctx.tlc("VxDoc", {"Size": size, "Most": most}, INVS, name="doc", simulate=n, depth=400, seed=ctx.seed).traces
    if len(traces) < n:
        raise vxlib.CheckError("specification emitted only %d programs" % len(traces))
    compiler = vxlib.build_compiler(ctx.work)
    lib = library(vxlib.REPO)
    entries = links = ran = 0
    for k, trace in enumerate(traces[:n]):
        prog = Program(trace)
        work = vxlib.newwork("doc")
        try:
            for name, t in prog.files.items():
                path = os.path.join(work, "p", name + ".vxlisp")
                os.makedirs(os.path.dirname(path), exist_ok=True)
                with open(path, "w", encoding="utf-8") as f:
                    f.write(t)
            with open(os.path.join(work, "p", "project.vxlisp"), "w") as f:
                f.write(vxlib.project_text(()).replace(" :cmds\n ", " :cmds\n  (cmd doc :code :doc :path ../out/doc)")
                        .replace(':author "v"', ":author " + text(trace["pkgs"][1]["doc"])).replace(':doc "v"', ":doc " + text(trace["pkgs"][0]["doc"])))
            rc, o, e = vxlib.run([compiler, "doc", "--path", os.path.join(work, "p")], cwd=work, timeout=120)
            path = os.path.join(work, "out", "doc", "doc.html")
            if rc != 0 or "Error" in o + e or not os.path.exists(path):
                ctx.fail("no documentation page for a valid program", (o + e)[:2500])
                continue
            with open(path, encoding="utf-8") as f:
                page = Page(f.read())
            judge(ctx, prog, page, lib)
            entries += len(page.entries)
            links += len(page.all)
        finally:
            vxlib.rmwork(work)
        if k < (1 if ctx.quick else 4):
            ran += build(ctx, Program(trace, plain=True))
    ctx.traces += n
    ctx.extra.update(entries=entries, links=links, library=len(lib), constants=ran)
    ctx.sample({"page": traces[0]["page"][:6]})


CHECKS = {"P28": pages}

"""systematic single-token and single-statement changes of the whole source (python3 tools/mutate.py tools/mutants_auto.py -a)"""
import os
import re

SRC = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "src")
TOK = [(r"\b0\b", ["1"]), (r"\b1\b", ["0", "2"]), (r"(?<=[\w)] )<(?= [\w(])", ["<="]), (r"(?<=[\w)] )<=(?= )", ["<"]), (r"(?<=[\w)] )>(?= [\w(])", [">="]),
       (r"(?<=[\w)] )>=(?= )", [">"]), (r" == ", [" != "]), (r" != ", [" == "]), (r" \+ ", [" - "]), (r" - ", [" + "]), (r" && ", [" || "]), (r" \|\| ", [" && "]),
       (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"Ordering::(AcqRel|Acquire|Release|SeqCst)|(?<=, )(AcqRel|Acquire|Release|SeqCst)(?=\))", ["Ordering::Relaxed"]),
       (r"\.min\(", [".max("]), (r"\.max\(", [".min("]), (r"\.\.=", [".."]), (r"(?<=\w)\.\.(?=[\w.])", ["..="]),
       (r"self\.len\(\)", ["self.reserved_len()", "self.capacity()", "(self.len() + 1)", "self.len().saturating_sub(1)"]),
       (r"self\.reserved_len\(\)", ["self.len()", "(self.reserved_len() + 1)"]), (r"self\.a\b", ["0", "(self.a + 1)"]), (r"self\.len\b(?!\()", ["(self.len + 1)", "self.len.saturating_sub(1)"]),
       (r"fetch_add\(", ["fetch_max(", "fetch_or("]), (r"fetch_max\(", ["fetch_add(", "swap("]), (r"begin_idx", ["(begin_idx + 1)"]), (r"end_idx", ["(end_idx + 1)"]),
       (r"\bnum_items\b", ["(num_items + 1)"]), (r"\bi\b", ["(i + 1)", "j"]), (r"\bj\b", ["i"]), (r"\bcapacity\b(?!\()", ["(capacity + 1)"]),
       (r"Some\((\w+)\)", ["None"]), (r"\.is_some\(\)", [".is_none()"]), (r"\.is_none\(\)", [".is_some()"]), (r"\.skip\((\w+)\)", [""]), (r"\.take\((\w+)\)", [""]),
       (r"\.rev\(\)", [""]), (r"\.any\(", [".all("]), (r"\.all\(", [".any("]), (r"if (?=[a-z!])", ["if !"]), (r"return ", [""]), (r"\.next\(\)", [".nth(1)"]),
       (r"\bstd::mem::replace\b", ["std::mem::swap"]), (r"&mut ", ["&"]), (r"State::Init\w*", ["State::None"]), (r"\bcontinue\b", ["break"]), (r"\bbreak\b", ["continue"]),
       (r"get_unchecked", ["get"]), (r"'a ", [""]), (r"T: Send", ["T"]), (r"T: Sync", ["T"]), (r"Send \+ Sync", ["Send", "Sync"]), (r"&'a self", ["&self"]), (r"&mut self", ["&self"]),
       (r"self\.vec\.", ["self.vec.len() + self.vec."]), (r"PhantomData<&'a ", ["PhantomData<&'static "]), (r"pub\(crate\) ", ["pub "]), (r"unsafe fn ", ["fn "]), (r"\bself\.0\b", ["self.1"]),
       (r"\.wrapping_add\(", [".saturating_add("]), (r"\.checked_sub\(", [".checked_add("]), (r"\bif\b .*\{$", ["if true {", "if false {"])]


def lines(f):
    out, com, test = [], False, False
    for n, ln in enumerate(open(os.path.join(SRC, f)).read().split("\n")):
        s = ln.strip()
        if s.startswith("#[cfg(test)]"):
            test = True
        out.append((n, ln, bool(s) and not s.startswith(("//", "#", "use ", "mod ", "pub mod", "pub use")) and not test))
    return out


def make():
    ms = []
    for d, _, fs in sorted(os.walk(SRC)):
        for f in sorted(fs):
            rel = os.path.relpath(os.path.join(d, f), SRC)
            ls = lines(rel)
            for n, ln, use in ls:
                if not use:
                    continue
                new = []
                for rx, rs in TOK:
                    for m in re.finditer(rx, ln):
                        for r in rs:
                            x = ln[:m.start()] + r + ln[m.end():]
                            if x != ln:
                                new.append(x)
                for m in re.finditer(r"\((\w[\w.()]*), (\w[\w.()]*)\)", ln):
                    new.append(ln[:m.start()] + f"({m[2]}, {m[1]})" + ln[m.end():])
                s = ln.strip()
                if s.endswith(";") and not s.startswith(("let ", "use ", "return", "type ", "}")) and s.count("(") == s.count(")"):
                    new.append(ln[:len(ln) - len(ln.lstrip())])
                    new.append(ln + " " + s)
                for k in ("true =>", "false =>"):
                    if s.startswith(k) and "_ if" not in s:
                        new.append(re.sub(r"=> .*,$", "=> Default::default(),", ln))
                        new.append(re.sub(r"=> .*,$", "=> None,", ln))
                if s.startswith("."):
                    new.append("")
                nx = next((l for l in ls[n + 1:n + 3] if l[2]), None)
                if nx and s.endswith(";") and nx[1].strip().endswith(";") and nx[0] == n + 1:
                    new.append(nx[1] + "\n" + ln + "\0")
                for k, x in enumerate(dict.fromkeys(new)):
                    ms.append(dict(id=f"{rel}:{n + 1}.{k}", kind="auto", prop="", line=(rel, n, ln, x)))
    return ms


MUTANTS = make()

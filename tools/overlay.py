#!/usr/bin/env python3
"""Mechanical extraction of /repo into a verification overlay crate.

  overlay.py REPO OUT [--simd]

The overlay is /repo's current source, with exactly these changes:
  1. Cargo.toml is reduced to [package], [features] and [dependencies] (benches,
     profiles and dev-dependencies are dropped) plus an empty [workspace].
  2. every `static X: Lazy<T> = Lazy::new(init)` becomes
     `static X: crate::kharness::Tab<T> = Tab::new(<bytes>)`, where <bytes> is
     the value the original initialiser produced when it was executed natively
     on this run (the initialisers are closed terms).  `Tab` derefs to `T`.
  3. `#[cfg(kani)] mod kproofs;` (a file from /verif/harness) is appended to
     each source module, and `mod kharness;` to lib.rs.
  4. in movegen.rs and position.rs iterator chains over squares are written as the
     `for` loops they stand for (normalise), and `for` loops carrying nothing from
     one iteration to the next become one arbitrary iteration (pickify);
     `Vec<State>` becomes kharness::hist::Hist<State> (histify); a copy of
     legal_moves has its loop cut by an invariant (ghost_copy, cutify).
Nothing else is touched: every function body verified is the body in /repo.
"""
import os, re, shutil, subprocess, sys, tomllib, json

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KANI_TC = None


def kani_toolchain():
    base = os.path.expanduser("~/.kani")
    for d in sorted(os.listdir(base), reverse=True):
        p = os.path.join(base, d, "toolchain")
        if os.path.isdir(p):
            return os.path.realpath(p)
    raise SystemExit("kani toolchain not found")


def strip_code(src):
    """Same-length copy with comments, strings and char literals blanked."""
    out = list(src)
    i, n = 0, len(src)

    def blank(a, b):
        for k in range(a, b):
            if out[k] != "\n":
                out[k] = " "

    while i < n:
        c = src[i]
        if src.startswith("//", i):
            j = src.find("\n", i)
            j = n if j < 0 else j
            blank(i, j)
            i = j
        elif src.startswith("/*", i):
            d, j = 1, i + 2
            while j < n and d:
                if src.startswith("/*", j):
                    d += 1
                    j += 2
                elif src.startswith("*/", j):
                    d -= 1
                    j += 2
                else:
                    j += 1
            blank(i, j)
            i = j
        elif c == '"':
            j = i + 1
            while j < n and src[j] != '"':
                j += 2 if src[j] == "\\" else 1
            blank(i, min(j + 1, n))
            i = j + 1
        elif c == "'":
            m = re.match(r"'(\\.[^']*|[^'\\])'", src[i:])
            if m:
                blank(i, i + m.end())
                i += m.end()
            else:
                i += 1
        else:
            i += 1
    return "".join(out)


LAZY = re.compile(
    r"(?P<vis>\bpub(?:\s*\([^)]*\))?\s+)?\bstatic\s+(?P<name>[A-Za-z_]\w*)\s*:\s*"
    r"(?:[\w:]*::)?(?:Lazy|LazyLock)\s*<"
)


def find_lazy_statics(src):
    """[(start, end, vis, name, type)] of lazily initialised statics at any level."""
    code = strip_code(src)
    res = []
    for m in LAZY.finditer(code):
        i, d = m.end(), 1
        while d:
            ch = code[i]
            if ch == "<":
                d += 1
            elif ch == ">" and code[i - 1] not in "-=":
                d -= 1
            i += 1
        ty = src[m.end():i - 1]
        j, d = i, 0
        while True:
            ch = code[j]
            if ch in "([{":
                d += 1
            elif ch in ")]}":
                d -= 1
            elif ch == ";" and d == 0:
                break
            j += 1
        # only module-level statics (brace depth 0)
        pre = code[:m.start()]
        if pre.count("{") != pre.count("}"):
            continue
        # strip a trailing comma / default closure type parameter
        depth, parts, cur = 0, [], ""
        for ch in ty:
            if ch in "<([":
                depth += 1
            if ch in ">)]":
                depth -= 1
            if ch == "," and depth == 0:
                parts.append(cur)
                cur = ""
            else:
                cur += ch
        parts.append(cur)
        res.append((m.start(), j + 1, src[m.start("vis"):m.end("vis")] if m.group("vis") else "", m.group("name"), parts[0].strip()))
    return res


FOR = re.compile(r"\bfor\b")


def find_fn(code, name):
    """(body start, body end) offsets of fn `name` in stripped code, or None"""
    m = re.search(r"\bfn\s+" + name + r"\b", code)
    if not m:
        return None
    i = m.end()
    d = 0
    while i < len(code):
        ch = code[i]
        if ch in "([":
            d += 1
        elif ch in ")]":
            d -= 1
        elif ch == "{" and d == 0:
            break
        elif ch == ";" and d == 0:
            return None
        i += 1
    j, d = i, 0
    while j < len(code):
        if code[j] == "{":
            d += 1
        elif code[j] == "}":
            d -= 1
            if d == 0:
                return i, j + 1
        j += 1
    return None


IDENT = re.compile(r"[A-Za-z_]\w*")
PURE = {"contains", "is_empty", "count", "array_index", "file", "rank", "index", "flip", "clone", "iter", "into_iter", "unwrap_or_default", "unwrap", "is_some", "is_none"}


def functions(code):
    """[(name, signature, body start, body end)] of all fns with a body"""
    res = []
    for m in re.finditer(r"\bfn\s+([A-Za-z_]\w*)", code):
        r = find_fn(code[m.start():], m.group(1))
        if r:
            a, b = m.start() + r[0], m.start() + r[1]
            res.append((m.group(1), code[m.start():a], a, b))
    return res


def list_params(sig):
    """names of parameters that are mutable references to the move list"""
    return re.findall(r"([A-Za-z_]\w*)\s*:\s*&\s*(?:'\w+\s+)?mut\s+(?:\w+::)*ArrayVec\b", sig)


def counters(code, body):
    """[(start, end)] of statements `n += 1;` directly in the loop body, for an
    n used nowhere else in it: they run once per iteration"""
    txt = code[body[0]:body[1]]
    res, d = [], 0
    for m in re.finditer(r"[{}]|(?<![\w.])([A-Za-z_]\w*)\s*\+=\s*1\s*;", txt):
        if m.group(0) in "{}":
            d += 1 if m.group(0) == "{" else -1
        elif d == 1 and len(re.findall(r"(?<![\w.])" + m.group(1) + r"\b", txt)) == 1 and not re.search(r"\b(continue|break)\b", txt):
            res.append((body[0] + m.start(), body[0] + m.end()))
    return res


def frame_ok(code, sig, fbody, body, rule="pick"):
    """Does one iteration of a loop with this body carry nothing to the next?
    code: stripped file text; fbody/body: (start, end) of the enclosing function
    body and of the loop body. Returns None or the reason why it may not.
    rule pick_acc admits uniting into, storing into and counting in variables not
    read in the body; rule pick_ret admits `return true` (or false), the same one
    throughout."""
    acc = rule == "pick_acc"
    if acc:
        c = list(code)
        for x, y in counters(code, body):
            c[x:y] = " " * (y - x)
        code = "".join(c)
    txt = code[body[0]:body[1]]
    if rule == "pick_ret":
        rs = set(re.findall(r"\breturn\b\s*([^;}]*)", txt))
        if len(rs) > 1 or (rs and not rs <= {"true", "false"}):
            return "returns more than one value"
        txt = re.sub(r"\breturn\b", "      ", txt)
    for kw in (r"\bbreak\b", r"\breturn\b", r"\?\s*[;.,)]", r"\bstatic\b", r"\bawait\b"):
        if re.search(kw, txt):
            return "control leaves the body: " + kw
    local = set()
    for m in re.finditer(r"\blet\s+(.*?)=", txt, re.S):
        local |= set(IDENT.findall(m.group(1)))
    for m in re.finditer(r"\bfor\s+(.+?)\s+in\b", txt, re.S):
        local |= set(IDENT.findall(m.group(1)))
    for m in re.finditer(r"\|([^|\n]*)\|", txt):
        local |= set(IDENT.findall(m.group(1)))
    lists = set(list_params(sig))
    outer_mut = set(lists)
    for m in re.finditer(r"([A-Za-z_]\w*)\s*:\s*&\s*(?:'\w+\s+)?mut\b", sig):
        outer_mut.add(m.group(1))
    out = code[fbody[0]:body[0]] + code[body[1]:fbody[1]]
    for m in re.finditer(r"\blet\s+(?:\(?[^=;]*?)\bmut\s+([A-Za-z_]\w*)", out):
        outer_mut.add(m.group(1))
    if re.search(r"&\s*(?:'\w+\s+)?mut\s+self", sig):
        outer_mut.add("self")
    outer_mut -= local
    accs = {}
    for m in re.finditer(r"(?<![=!<>+\-*/%^&|])(\+|-|\*|/|%|\^|&|\||<<|>>)?=(?![=>])", txt):
        left = txt[:m.start()]
        st = max(left.rfind(";"), left.rfind("{"), left.rfind("}"), left.rfind("=>"), left.rfind(","))
        lhs = left[st + 1:].strip()
        if re.match(r"(if\s+|while\s+)?let\b", lhs) or "let " in lhs:
            continue
        ids = IDENT.findall(lhs)
        if acc and ids and ids[0] not in local and (m.group(1) == "|" or (m.group(1) is None and lhs.endswith("]"))):
            # an accumulator: united or stored into, and not used otherwise
            accs.setdefault(ids[0], 0)
            accs[ids[0]] += 1
            continue
        if ids and ids[0] not in local:
            return "assigns to " + lhs + " declared outside the loop"
    for n, k in accs.items():
        if len(re.findall(r"(?<![\w.])" + n + r"\b", txt)) != k:
            return f"{n} is accumulated and used as well"
        outer_mut.discard(n)
    for m in re.finditer(r"&\s*mut\s+([A-Za-z_]\w*)", txt):
        if m.group(1) not in local:
            return "borrows " + m.group(1) + " mutably"
    for n in outer_mut - lists:
        if re.search(r"(?<![\w.])" + n + r"\s*\(", txt):
            return f"calls {n}, which may carry state"
    for n in outer_mut:
        for m in re.finditer(r"(?<![\w.])" + n + r"\b\s*(\.\s*([A-Za-z_]\w*)\s*(\()?)?", txt):
            if m.group(2) is None:
                continue  # read, or passed on
            if n in lists:
                if m.group(2) != "push":
                    return f"uses {n}.{m.group(2)}"
            elif m.group(3) and m.group(2) not in PURE:
                return f"calls {n}.{m.group(2)}"
    return None


def match_paren(code, i):
    """offset after the bracket closing the one at i"""
    d = 0
    while i < len(code):
        d += (code[i] in "([{") - (code[i] in ")]}")
        i += 1
        if d == 0:
            return i
    return None


def expr_start(code, i):
    """start of the postfix expression that ends at i"""
    while True:
        j = i
        while j > 0 and code[j - 1] in " \n\t":
            j -= 1
        if j > 0 and code[j - 1] in ")]":
            d = 0
            while j > 0:
                j -= 1
                d += (code[j] in ")]}") - (code[j] in "([{")
                if d == 0:
                    break
        elif j > 0 and (code[j - 1].isalnum() or code[j - 1] == "_"):
            while j > 0 and (code[j - 1].isalnum() or code[j - 1] in "_:"):
                j -= 1
        else:
            return i
        i = j
        k = i
        while k > 0 and code[k - 1] in " \n\t":
            k -= 1
        if k > 0 and code[k - 1] == ".":
            i = k - 1
        elif not (k > 0 and k == i and (code[k - 1].isalnum() or code[k - 1] in "_)]")):
            return i


ADAPT = {"filter": ".filter", "map": ".map", "filter_map": ".and_then"}


def chain(code, a, b):
    """code[a:b] as (base start, base end, [(adapter, args start, args end)]) of
    `base.into_iter().adapter(..)...`, or None"""
    m = [m for m in re.finditer(r"\.\s*into_iter\s*\(\s*\)", code[a:b])]
    for m in m:
        st, i, ads = a + m.start(), a + m.end(), []
        if code[a:st].count("(") != code[a:st].count(")") or not code[a:st].strip():
            continue
        while True:
            mm = re.compile(r"\s*\.\s*(filter_map|filter|map)\s*(?=\()").match(code, i, b)
            if not mm:
                break
            e = match_paren(code, mm.end())
            ads.append((mm.group(1), mm.end() + 1, e - 1))
            i = e
        if not code[i:b].strip():
            return a, st, ads
    return None


def closure(code, a, b):
    """closure text at code[a:b] -> (parameter texts, body start, body end) or None"""
    m = re.compile(r"\s*\|([^|]*)\|\s*").match(code, a, b)
    if not m:
        return None
    ps, d, cur = [], 0, ""
    for ch in m.group(1):
        d += (ch in "([<") - (ch in ")]>")
        if ch == "," and d == 0:
            ps.append(cur)
            cur = ""
        else:
            cur += ch
    ps.append(cur)
    e = b
    while e > m.end() and code[e - 1] in " \n\t,":
        e -= 1
    return [p.split(":")[0].strip() if "::" not in p else p.strip() for p in ps if p.strip()], m.end(), e


def normalise(src):
    """Write iterator chains and `while let .. next()` as the `for` loops they stand
    for, before the tests. Returns (text, number of rewrites)."""
    n = 0
    while n < 200:
        code = strip_code(src)
        cut = code.find("#[cfg(test)]")
        limit = cut if cut >= 0 else len(code)
        r = normalise_one(src, code, limit)
        if r is None:
            break
        src = r
        n += 1
    return src, n


def normalise_one(src, code, limit):
    # let mut it = E; while let Some(p) = it.next() { .. }
    for m in re.finditer(r"\blet\s+mut\s+([A-Za-z_]\w*)\s*=\s*([^;{}]*?);\s*while\s+let\s+Some\s*\(([^=]*)\)\s*=\s*\1\s*\.\s*next\s*\(\s*\)\s*(?=\{)", code[:limit]):
        f = [f for f in functions(code[:limit]) if f[2] < m.start() < f[3]]
        if f and len(re.findall(r"(?<![\w.])" + m.group(1) + r"\b", code[f[-1][2]:f[-1][3]])) == 2:
            return src[:m.start()] + "for " + src[m.start(3):m.end(3)] + " in " + src[m.start(2):m.end(2)] + " " + src[m.end():]
    # statements E.for_each(|p| ..); and list.extend(E);
    for m in re.finditer(r"\.\s*for_each\s*(?=\()", code[:limit]):
        e = match_paren(code, m.end())
        c = closure(code, m.end() + 1, e - 1)
        st = expr_start(code, m.start())
        before = code[:st].rstrip()
        after = code[e:].lstrip()[:1]
        if c and len(c[0]) == 1 and before[-1:] in ";{}" and after in ";}" and not re.search(r"\breturn\b", code[c[1]:c[2]]):
            return src[:st] + f"for {c[0][0]} in {src[st:m.start()]} {{ {src[c[1]:c[2]]}; }} " + src[e + (after == ";" and code[e:].index(";") + 1):]
    for m in re.finditer(r"\b([A-Za-z_]\w*)\s*\.\s*extend\s*(?=\()", code[:limit]):
        f = [f for f in functions(code[:limit]) if f[2] < m.start() < f[3]]
        e = match_paren(code, m.end())
        after = code[e:].lstrip()[:1]
        if f and m.group(1) in list_params(f[-1][1]) and code[:m.start()].rstrip()[-1:] in ";{}" and after in ";}" and chain(code, m.end() + 1, e - 1):
            return src[:m.start()] + f"for __m in {src[m.end() + 1:e - 1]} {{ {m.group(1)}.push(__m); }} " + src[e + (after == ";" and code[e:].index(";") + 1):]
    # E.into_iter().any(|p| c), .all(|p| c), .fold(init, |a, p| a | e)
    for m in re.finditer(r"\.\s*(any|all|fold)\s*(?=\()", code[:limit]):
        f = [f for f in functions(code[:limit]) if f[2] < m.start() < f[3]]
        if not f:
            continue
        e = match_paren(code, m.end())
        st = expr_start(code, m.start())
        ch = chain(code, st, m.start())
        if not ch:
            continue
        if m.group(1) == "fold":
            k = code.find("|", m.end(), e)
            c = closure(code, k, e - 1) if k > 0 else None
            ini = src[m.end() + 1:k].strip().rstrip(",")
            if not c or len(c[0]) != 2 or not re.fullmatch(r"[A-Za-z_]\w*", c[0][0]) or not re.fullmatch(r"(\w+::)*Bitboard::empty\(\)", ini):
                continue
            bm = re.compile(r"\(?\s*" + c[0][0] + r"\s*\|(?!\|)").match(code, c[1], c[2])
            if not bm or len(re.findall(r"\b" + c[0][0] + r"\b", code[c[1]:c[2]])) != 1:
                continue
            body = src[bm.end():c[2]]
            if code[c[1]] == "(":
                if match_paren(code, c[1]) != c[2]:
                    continue
                body = body[:-1]
            return src[:st] + f"{{ let mut __acc = {ini}; for {c[0][1]} in {src[st:m.start()]} {{ __acc |= {body}; }} __acc }}" + src[e:]
        # only where nothing else loops, and the answer is a bool
        c = closure(code, m.end() + 1, e - 1)
        if ch[2] or not c or len(c[0]) != 1 or not re.search(r"->\s*bool\s*$", f[-1][1]) or re.search(r"\b(for|while|loop)\b|\.\s*(any|all)\s*\(", code[f[-1][2]:st] + code[e:f[-1][3]]):
            continue
        if frame_ok(code, f[-1][1], (f[-1][2], f[-1][3]), (c[1], c[2]), "pick_ret") is not None:
            continue
        yes = "true" if m.group(1) == "any" else "false"
        no = "false" if yes == "true" else "true"
        cond = ("" if yes == "true" else "!") + "(" + src[c[1]:c[2]] + ")"
        return src[:st] + f"({{ let mut __r = {no}; 'any: for {c[0][0]} in crate::pick!({src[st:ch[1]]}) {{ if {cond} {{ __r = {yes}; break 'any; }} }} __r }})" + src[e:]
    # for p in E.into_iter().filter(..).map(..) { .. }
    for m in FOR.finditer(code, 0, limit):
        mm = re.compile(r"\s+(.+?)\s+in\b", re.S).match(code, m.end())
        if not mm:
            continue
        i = mm.end()
        while i < limit and code[i] != "{":
            i = match_paren(code, i) if code[i] in "([" else i + 1
        if "crate::pick!" in code[mm.end():i]:
            continue
        ch = chain(code, mm.end(), i)
        if not ch:
            continue
        base = src[mm.end():ch[1]].strip()
        if not ch[2]:
            return src[:mm.end()] + " " + base + " " + src[i:]
        e = match_paren(code, i)
        if re.search(r"\bbreak\b", code[i:e]):
            continue
        calls = "".join(f"{ADAPT[a]}({src[x:y]})" for a, x, y in ch[2])
        return (src[:m.start()] + f"for __e in {base} {{ if let Some({src[m.end():mm.end() - 2].strip()}) = Some(__e){calls} " + src[i:e] + " }" + src[e:])
    return None


def pickify(src, want=None, macro="pick"):
    """Apply the one-arbitrary-iteration loop rule to every `for` loop of the
    functions that take the move list (rules pick, then pick_acc) or return bool
    (rule pick_ret), or of the functions named in want (the rule named).
    Returns (text, [(fn, line)] replaced, [(fn, line, reason)] left alone)."""
    code = strip_code(src)
    cut = code.find("#[cfg(test)]")
    limit = cut if cut >= 0 else len(code)
    fns = [f for f in functions(code) if f[2] < limit]
    done, left, edits = [], [], []
    # the list may only be pushed to or handed on, in every function taking it
    bad = None
    for name, sig, a, b in fns:
        for p in list_params(sig):
            for m in re.finditer(r"(?<![\w.])" + p + r"\b\s*(\.\s*([A-Za-z_]\w*)|\[)?", code[a:b]):
                if m.group(1) and m.group(2) != "push":
                    bad = f"{name} uses {p}{m.group(1)}"
    for name, sig, a, b in fns:
        rules = [macro]
        if want is None:
            if list_params(sig):
                rules = ["pick", "pick_acc"]
            elif re.search(r"->\s*bool\s*$", sig):
                rules = ["pick_ret"]
            else:
                continue
        elif name not in want:
            continue
        for m in FOR.finditer(code, a, b):
            mm = re.compile(r"\s+(.+?)\s+in\b", re.S).match(code, m.end())
            if not mm:
                continue
            i, d = mm.end(), 0
            while i < b:
                ch = code[i]
                if ch in "([":
                    d += 1
                elif ch in ")]":
                    d -= 1
                elif ch == "{" and d == 0:
                    break
                i += 1
            e, d = i, 0
            while e < b:
                d += (code[e] == "{") - (code[e] == "}")
                e += 1
                if d == 0:
                    break
            line = code.count("\n", 0, m.start()) + 1
            whys = [(r, frame_ok(code, sig, (a, b), (i, e), r)) for r in rules]
            rule = next((r for r, w in whys if w is None), None)
            if rule is None or (bad and list_params(sig)):
                left.append((name, line, bad or "; ".join(w for _, w in whys)))
                continue
            done.append((name, line))
            edits.append((mm.end(), i, f" crate::{'pick' if rule == 'pick_ret' else rule}!({src[mm.end():i].strip()}) "))
            if rule == "pick_acc":
                for x, y in counters(code, (i, e)):
                    edits.append((x, y, "for _ in 0..crate::kharness::acc::bump() { " + src[x:y] + " }"))
    for x, y, t in sorted(edits, reverse=True):
        src = src[:x] + t + src[y:]
    return src, done, left, bad


def cutify(fn):
    """Cut the one `while` loop in the text of a function: it becomes one arbitrary
    iteration (or none) from an arbitrary state of the variables it may change, with
    the invariant assumed before and asserted after (kharness::cut)."""
    code = strip_code(fn)
    ws = list(re.finditer(r"\bwhile\b|\bfor\b|\bloop\b", code))
    if len(ws) != 1 or ws[0].group(0) != "while":
        return fn, False
    st = ws[0].start()
    i = code.index("{", st)
    e, d = i, 0
    while e < len(code):
        d += (code[e] == "{") - (code[e] == "}")
        e += 1
        if d == 0:
            break
    cond, body = fn[st + 5:i].strip(), fn[i + 1:e - 1]
    if re.search(r"\b(break|continue|return)\b|\?", code[st + 5:e]) or re.search(r"\blet\b", code[st + 5:i]):
        return fn, False
    vs = re.findall(r"\blet\s+mut\s+([A-Za-z_]\w*)\b", code[:st])
    if len(vs) != 2:
        return fn, False
    k = "crate::kharness::cut::"
    each = lambda f: "".join(f"{k}{f}(&mut {v}); " for v in vs)
    new = f"{each('enter')} {k}assume(); if {cond} {{ {body} {each('leave')} {k}step(); }} else {{ {k}end(); }}"
    return fn[:st] + new + fn[e:], True


def ghost_copy(src, name):
    """A copy of function `name` in which the list is replaced by what its contract
    says (kharness::cut::GList), the two generators by theirs, and the loop is cut.
    Returns (text to append, line or None)."""
    code = strip_code(src)
    m = re.search(r"(pub(\([a-z]+\))?\s+)?fn\s+" + name + r"\b", code)
    r = find_fn(code, name)
    if not m or not r:
        return "", None
    fn = src[m.start():r[1]]
    fn, done = cutify(fn)
    fn = re.sub(r"\bfn\s+" + name + r"\b", "fn legal_moves_ghost", fn, count=1)
    fn = re.sub(r"(\barrayvec::)?\bArrayVec\b", "crate::kharness::cut::GList", fn)
    for g in ("all", "evasions"):
        fn = re.sub(r"\bself\s*\.\s*generate_" + g + r"\b", "self.ghost_" + g, fn)
    return "\n#[cfg(kani)]\nimpl Position {\n    " + fn + "\n}\n", code.count("\n", 0, m.start()) + 1


def histify(src):
    """Replace `Vec<State>` by kharness::hist::Hist<State>, when it is the only use
    of Vec before the tests. Returns (text, replaced?)."""
    code = strip_code(src)
    cut = code.find("#[cfg(test)]")
    limit = cut if cut >= 0 else len(code)
    ts = [re.sub(r"\s", "", x) for x in re.findall(r"\bVec\s*(?:::)?<([^>]*)>", code[:limit])]
    if not ts or set(ts) != {"State"}:
        return src, False
    for m in reversed(list(re.finditer(r"\b(?:(?:std|alloc)::vec::)?Vec\b|\b(?:std::|alloc::)?vec!", code[:limit]))):
        src = src[:m.start()] + ("crate::hvec!" if m.group(0).endswith("!") else "crate::kharness::hist::Hist") + src[m.end():]
    return src, True


def modules(src_dir):
    """rust source files of the crate -> list of relative paths"""
    out = []
    for root, _, files in os.walk(src_dir):
        for f in files:
            if f.endswith(".rs"):
                out.append(os.path.relpath(os.path.join(root, f), src_dir))
    return sorted(out)


def write_manifest(repo, out):
    t = tomllib.load(open(os.path.join(repo, "Cargo.toml"), "rb"))
    pk = t["package"]
    lines = ["[package]", f'name = "{pk["name"]}"', f'version = "{pk["version"]}"', f'edition = "{pk.get("edition", "2021")}"', ""]
    lines.append("[features]")
    for k, v in t.get("features", {}).items():
        lines.append(f"{k} = {json.dumps(v)}")
    lines += ["", "[dependencies]"]

    def val(v):
        if isinstance(v, str):
            return json.dumps(v)
        if isinstance(v, bool):
            return "true" if v else "false"
        if isinstance(v, list):
            return "[" + ", ".join(val(x) for x in v) + "]"
        return "{ " + ", ".join(f"{k} = {val(x)}" for k, x in v.items()) + " }"

    for k, v in t.get("dependencies", {}).items():
        lines.append(f"{k} = {val(v)}")
    lines += ["", "[workspace]", "", "[lints.rust]", 'unexpected_cfgs = "allow"', ""]
    open(os.path.join(out, "Cargo.toml"), "w").write("\n".join(lines))
    lock = os.path.join(repo, "Cargo.lock")
    if not os.path.exists(lock):
        lock = os.path.join(VERIF, "tools", "Cargo.lock.repo")
    shutil.copy(lock, os.path.join(out, "Cargo.lock"))


SIMD_FLAGS = "-C target-feature=+avx2"


def dump_tables(repo, work, simd):
    """Run the real initialisers natively; returns {file: [(name, bytes)]}."""
    out = os.path.join(work, "dump")
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    shutil.copytree(os.path.join(repo, "src"), os.path.join(out, "src"))
    write_manifest(repo, out)
    names = {}
    calls = []
    for rel in modules(os.path.join(repo, "src")):
        p = os.path.join(out, "src", rel)
        s = open(p).read()
        st = find_lazy_statics(s)
        if not st:
            continue
        names[rel] = [x[3] for x in st]
        modpath = rel[:-3].replace("/mod", "").replace("/", "::")
        modpath = "" if modpath == "lib" else modpath + "::"
        body = "".join(
            f'    {{ let v = &*{n}; let sz = core::mem::size_of_val(v);'
            f' let b = unsafe {{ core::slice::from_raw_parts(v as *const _ as *const u8, sz) }};'
            f' std::fs::write(format!("{{}}/{rel.replace("/", "_")}.{n}.bin", dir), b).unwrap(); }}\n'
            for n in names[rel]
        )
        s += f"\npub fn __verif_dump(dir: &str) {{\n{body}}}\n"
        open(p, "w").write(s)
        calls.append(f"crate::{modpath}__verif_dump(dir);")
    lib = os.path.join(out, "src", "lib.rs")
    s = open(lib).read() + "\npub fn __verif_dump_all(dir: &str) { " + " ".join(calls) + " }\n"
    open(lib, "w").write(s)
    os.makedirs(os.path.join(out, "src", "bin"), exist_ok=True)
    open(os.path.join(out, "src", "bin", "verif_dump.rs"), "w").write(
        "fn main() { yasai::__verif_dump_all(&std::env::args().nth(1).unwrap()) }\n"
    )
    tc = kani_toolchain()
    env = dict(os.environ)
    env["PATH"] = os.path.join(tc, "bin") + ":" + env["PATH"]
    env["RUSTC"] = os.path.join(tc, "bin", "rustc")
    env["CARGO_NET_OFFLINE"] = "true"
    env.pop("RUSTFLAGS", None)
    env["RUSTFLAGS"] = "-Awarnings" + (" " + SIMD_FLAGS if simd else "")
    bins = os.path.join(work, "bins")
    shutil.rmtree(bins, ignore_errors=True)
    os.makedirs(bins)
    cmd = [os.path.join(tc, "bin", "cargo"), "run", "-q", "--offline", "--bin", "verif_dump"]
    if simd:
        cmd += ["--features", "simd"]
    cmd += ["--", bins]
    r = subprocess.run(cmd, cwd=out, env=env, capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError("table dump failed:\n" + r.stderr[-4000:])
    return names, bins


def build(repo, work, simd=False, append=None, pick=(), cut=(), hist=(), norm=True):
    """Create the overlay crate under work/ov. append: {rel: text}"""
    names, bins = dump_tables(repo, work, simd)
    ov = os.path.join(work, "ov")
    shutil.rmtree(ov, ignore_errors=True)
    os.makedirs(ov)
    shutil.copytree(os.path.join(repo, "src"), os.path.join(ov, "src"))
    write_manifest(repo, ov)
    shutil.copytree(os.path.join(VERIF, "harness"), os.path.join(ov, "harness"))
    info = {"rewritten_statics": [], "bytes": 0}
    for rel in modules(os.path.join(repo, "src")):
        p = os.path.join(ov, "src", rel)
        s = open(p).read()
        st = find_lazy_statics(s)
        for (a, b, vis, name, ty) in reversed(st):
            binf = os.path.join(bins, rel.replace("/", "_") + "." + name + ".bin")
            size = os.path.getsize(binf)
            new = (
                f"{vis}static {name}: crate::kharness::Tab<{ty}> = crate::kharness::Tab::new(unsafe {{ "
                f"core::mem::transmute::<[u8; {size}], {ty}>(*include_bytes!({json.dumps(binf)})) }});"
            )
            if name == "BETWEEN_TABLE" and re.sub(r"\s", "", ty) == "[[Bitboard;Square::NUM];Square::NUM]":
                new = new.replace(f"static {name}:", f"static {name}_REAL:").replace(vis, "pub(crate) ", 1) if vis else new.replace(f"static {name}:", f"pub(crate) static {name}_REAL:")
                new += f"\n{vis}static {name}: crate::kharness::BetweenTab = crate::kharness::BetweenTab;"
                info["between_contract"] = True
            s = s[:a] + new + s[b:]
            info["rewritten_statics"].append(f"{rel}:{name}")
            info["bytes"] += size
        ghost = ""
        for crel, fn in cut:
            if crel == rel:
                g, line = ghost_copy(s, fn)
                ghost += g
                if line:
                    info["loops_cut"] = info.get("loops_cut", []) + [f"{rel}:{line} {fn}, loop replaced by its invariant, list by its contract"]
        for prel, want, macro in pick:
            if prel == rel:
                if norm:
                    s, k = normalise(s)
                    info["chains_as_loops"] = info.get("chains_as_loops", 0) + k
                s, dn, lf, bad = pickify(s, want, macro)
                info["list_use"] = bad or info.get("list_use")
                info["loop_rule"] = info.get("loop_rule", []) + [f"{rel}:{x[1]} in {x[0]}" for x in dn]
                info["loops_left"] = info.get("loops_left", []) + [f"{rel}:{x[1]} in {x[0]}: {x[2]}" for x in lf]
        if rel in hist:
            s, done = histify(s)
            if done:
                info["history"] = "Vec<State> of any length"
        s += ghost
        if append and rel in append:
            s += append[rel]
        if rel == "lib.rs":
            s = "#![cfg_attr(kani, feature(allocator_api))]\n#![recursion_limit = \"1024\"]\n" + s
        open(p, "w").write(s)
    return ov, info


if __name__ == "__main__":
    ov, info = build(sys.argv[1], sys.argv[2], "--simd" in sys.argv)
    print(ov, info)

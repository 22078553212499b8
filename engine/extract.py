"""Mechanical extraction of functions and items from /repo's Rust source.

Only whitespace, comments and attributes are dropped here; every other change to the text is a substitution that the
template asks for (and that the evidence lists)."""
import os, re
from .common import REPO


class Lost(Exception):
    """The source no longer offers the anchor that a proof needs."""


def blank_comments(src):
    """Replaces comments by spaces (same offsets); leaves strings and characters alone."""
    out, i, n = [], 0, len(src)
    while i < n:
        c = src[i]
        if src.startswith("//", i):
            j = src.find("\n", i)
            j = n if j < 0 else j
            out.append(" " * (j - i))
            i = j
        elif src.startswith("/*", i):
            depth, j = 1, i + 2
            while j < n and depth:
                if src.startswith("/*", j):
                    depth, j = depth + 1, j + 2
                elif src.startswith("*/", j):
                    depth, j = depth - 1, j + 2
                else:
                    j += 1
            out.append("".join("\n" if ch == "\n" else " " for ch in src[i:j]))
            i = j
        elif c == '"':
            j = i + 1
            while j < n and src[j] != '"':
                j += 2 if src[j] == "\\" else 1
            out.append(src[i:j + 1])
            i = j + 1
        elif c == "'":
            m = re.match(r"'(\\.[^']*|[^'\\])'", src[i:])
            if m:
                out.append(m.group(0))
                i += m.end()
            else:
                out.append(c)
                i += 1
        else:
            out.append(c)
            i += 1
    return "".join(out)


def match_close(s, i):
    """Index of the bracket closing the one at i (s without comments)."""
    pairs = {"{": "}", "(": ")", "[": "]"}
    stack = []
    n = len(s)
    while i < n:
        c = s[i]
        if c == '"':
            i += 1
            while i < n and s[i] != '"':
                i += 2 if s[i] == "\\" else 1
        elif c == "'":
            m = re.match(r"'(\\.[^']*|[^'\\])'", s[i:])
            if m:
                i += m.end() - 1
        elif c in pairs:
            stack.append(pairs[c])
        elif c in ")]}":
            if not stack or stack.pop() != c:
                raise Lost("unbalanced source")
            if not stack:
                return i
        i += 1
    raise Lost("unbalanced source")


_cache = {}


def expand(src):
    """The source with its own macros expanded by rustc (before name resolution, so nothing else needs to be present)."""
    import subprocess, tempfile, shutil
    src = re.sub(r"(?m)^\s*use [^;]*;", "", src)
    src = re.sub(r"(?m)^\s*mod \w+;", "", src)
    d = tempfile.mkdtemp(prefix="ozz-expand-")
    try:
        with open(os.path.join(d, "m.rs"), "w") as f:
            f.write(src)
        env = dict(os.environ, RUSTC_BOOTSTRAP="1")
        env["PATH"] = env.get("PATH", "") + ":/root/.cargo/bin"
        subprocess.run(["rustc", "--crate-type", "lib", "--edition", "2021", "-Zunpretty=expanded", "m.rs", "-o", "out.rs"],
                       cwd=d, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
        with open(os.path.join(d, "out.rs")) as f:
            return blank_comments(f.read())
    except (OSError, subprocess.TimeoutExpired) as e:
        raise Lost(f"macro expansion failed: {e}")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def load(rel):
    if rel.endswith("!"):
        if rel not in _cache:
            _cache[rel] = expand(load(rel[:-1]))
        return _cache[rel]
    if rel not in _cache:
        p = os.path.join(REPO, rel)
        if not os.path.exists(p):
            raise Lost(f"{rel} is gone")
        with open(p, encoding="utf-8") as f:
            src = blank_comments(f.read())
        # Test modules are not part of the verified text.
        src = re.sub(r"#\[cfg\(test\)\]\s*mod\s+\w+\s*\{.*\Z", "", src, flags=re.S)
        _cache[rel] = src
    return _cache[rel]


def impl_ranges(src, ty):
    """(start, end) of the bodies of the impl blocks of type ty (inherent or trait 'Trait for ty')."""
    out = []
    for m in re.finditer(r"\bimpl\b", src):
        j = src.find("{", m.end())
        if j < 0:
            continue
        head = " ".join(src[m.start():j].split())
        head = re.sub(r"\bwhere\b.*", "", head).strip()
        h = head[4:].strip()
        if h.startswith("<"):
            d = 0
            for k, ch in enumerate(h):
                d += ch == "<"
                d -= ch == ">" and h[k - 1] != "-"
                if d == 0:
                    h = h[k + 1:].strip()
                    break
        if h == ty or re.match(re.escape(ty) + r"\s*<", h) and " for " not in ty and " for " not in h:
            out.append((j, match_close(src, j)))
    return out


class Fn:
    def __init__(self, name, sig, body, rel, line):
        self.name, self.sig, self.body, self.rel, self.line = name, sig, body, rel, line


def find_fn(rel, path):
    """path: 'name', 'Type::name' or 'Trait for Type::name'."""
    src = load(rel)
    if "::" in path:
        ty, name = path.rsplit("::", 1)
        if ty.startswith("trait "):
            ranges = [(src.find("{", m.end()), match_close(src, src.find("{", m.end())))
                      for m in re.finditer(r"\btrait\s+%s\b" % re.escape(ty[6:]), src)]
        else:
            ranges = impl_ranges(src, ty)
        if not ranges:
            raise Lost(f"no impl of {ty} in {rel}")
    else:
        name, ranges = path, [(0, len(src))]
    hits = []
    for a, b in ranges:
        for m in re.finditer(r"(?:\bpub(?:\([^)]*\))?\s+)?(?:const\s+)?(?:unsafe\s+)?\bfn\s+%s\b" % re.escape(name), src[a:b]):
            hits.append(a + m.start())
    if len(hits) != 1:
        raise Lost(f"{len(hits)} functions named {path} in {rel}")
    i = hits[0]
    p = src.find("(", i)
    # generic parameters may hold parentheses only in Fn bounds, which are not used here
    e = match_close(src, p)
    j = e
    depth = 0
    while True:
        j += 1
        if j >= len(src):
            raise Lost(f"{path} has no body")
        c = src[j]
        if c in "([":
            j = match_close(src, j)
        elif c == "{":
            break
        elif c == ";":
            raise Lost(f"{path} has no body")
    k = match_close(src, j)
    return Fn(name, " ".join(src[i:j].split()), src[j + 1:k], rel, src.count("\n", 0, i) + 1)


def find_item(rel, kind, name):
    """The text of a struct, enum, const or static item."""
    src = load(rel)
    m = re.search(r"(?:\bpub(?:\([^)]*\))?\s+)?\b%s\s+%s\b" % (kind, re.escape(name)), src)
    if not m:
        raise Lost(f"no {kind} {name} in {rel}")
    i = m.end()
    while src[i] not in "{;(":
        i += 1
    if kind in ("const", "static"):
        j = m.end()
        while src[j] != ";":
            if src[j] in "([{":
                j = match_close(src, j)
            j += 1
        return src[m.start():j + 1]
    if src[i] == ";":
        return src[m.start():i + 1]
    k = match_close(src, i)
    return src[m.start():k + 1] + (";" if src[i] == "(" else "")


def norm(s):
    return re.sub(r"\s+", "", s)


def drop_attrs(s):
    out, i = [], 0
    while True:
        m = re.search(r"#!?\[", s[i:])
        if not m:
            out.append(s[i:])
            return "".join(out)
        a = i + m.start()
        out.append(s[i:a])
        i = match_close(s, a + m.end() - m.start() - 1) + 1


def loops(body):
    """Offsets (header start, brace) of the loops of a body, in text order. 'for' in types does not occur in bodies."""
    out = []
    for m in re.finditer(r"(?<![\w.'])(while|for|loop)\b", body):
        # skip strings
        i = m.start()
        j = m.end()
        depth = 0
        while True:
            c = body[j]
            if c in "([":
                j = match_close(body, j)
            elif c == "{":
                break
            elif c == ";":
                j = -1
                break
            j += 1
        if j < 0:
            continue
        out.append((i, j))
    return out

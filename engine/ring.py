"""Polynomial identities over the reals: stated in a template (//@ring), proved by Z3's polynomial normal form, and given to
Verus as lemmas without a body. Polynomial inequalities (//@nra) likewise, proved by Z3's solver for nonlinear real arithmetic."""
import ast, re, subprocess, time


class Smt(ast.NodeVisitor):
    def __init__(self, env):
        self.env = env

    def visit(self, n):
        if isinstance(n, ast.Expression):
            return self.visit(n.body)
        if isinstance(n, ast.BinOp):
            op = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/"}[type(n.op)]
            return f"({op} {self.visit(n.left)} {self.visit(n.right)})"
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            return f"(- {self.visit(n.operand)})"
        if isinstance(n, ast.Constant):
            return f"{int(n.value)}.0"
        if isinstance(n, ast.Compare):
            op = {ast.LtE: "<=", ast.Lt: "<", ast.Eq: "="}[type(n.ops[0])]
            return f"({op} {self.visit(n.left)} {self.visit(n.comparators[0])})"
        if isinstance(n, ast.Name):
            return self.env[n.id]
        raise ValueError(ast.dump(n))


def parse(lines):
    lets, eqs = [], []
    for l in " ".join(x.strip() for x in lines).split(";"):
        l = l.strip()
        if not l:
            continue
        m = re.match(r"let (\w+) = (.*)", l)
        if m:
            lets.append((m.group(1), m.group(2)))
        else:
            a, b = l.split("==")
            eqs.append((a.strip(), b.strip()))
    return lets, eqs


def verus_text(name, args, lines):
    lets, eqs = parse(lines)
    body = " ".join(f"let {v} = {e};" for v, e in lets) + " " + " ".join(f"&&& {a} == {b}" for a, b in eqs)
    return (f"#[verifier::external_body] /* by contract */\npub proof fn {name}({', '.join(a + ': real' for a in args)})\n"
            f"    ensures ({{ {body} }})\n{{ }}\n")


def prove(name, args, lines):
    """(proved, seconds, text)"""
    t = time.time()
    lets, eqs = parse(lines)
    env = {a: a for a in args}
    conv = lambda e: Smt(env).visit(ast.parse(re.sub(r"(\d)real", r"\1", e), mode="eval"))
    for v, e in lets:
        env[v] = conv(e)
    s = "".join(f"(declare-const {a} Real)\n" for a in args)
    for a, b in eqs:
        s += f"(simplify (- {conv(a)} {conv(b)}) :som true :som_blowup 1000000000)\n"
    r = subprocess.run(["z3", "-smt2", "-in"], input=s, capture_output=True, text=True, timeout=120)
    got = r.stdout.split()
    return got == ["0.0"] * len(eqs), time.time() - t, r.stdout[:500]


# --- inequalities: `let v = e;`, `given e REL e;`, `e REL e;`

def parse_nra(lines):
    lets, given, goals = [], [], []
    for l in " ".join(x.strip() for x in lines).split(";"):
        l = l.strip()
        if l.startswith("let "):
            v, e = l[4:].split(" = ", 1)
            lets.append((v.strip(), e))
        elif l.startswith("given "):
            given.append(l[6:])
        elif l:
            goals.append(l)
    return lets, given, goals


def verus_nra(name, args, lines):
    lets, given, goals = parse_nra(lines)
    b = " ".join(f"let {v} = {e};" for v, e in lets) + " "
    both = lambda l: "({ " + b + " ".join(f"&&& {x}" for x in l) + " })"
    return (f"#[verifier::external_body] /* by contract */\npub proof fn {name}({', '.join(a + ': real' for a in args)})\n"
            f"    requires {both(given)}\n    ensures {both(goals)}\n{{ }}\n")


def prove_nra(name, args, lines, limit=60):
    """(proved, seconds, text)"""
    t = time.time()
    lets, given, goals = parse_nra(lines)
    env = {a: a for a in args}
    conv = lambda e: Smt(env).visit(ast.parse(re.sub(r"(\d)real", r"\1", e.strip()), mode="eval"))
    for v, e in lets:
        env[v] = conv(e)
    s = "(set-logic QF_NRA)\n" + "".join(f"(declare-const {a} Real)\n" for a in args)
    s += "".join(f"(assert {conv(g)})\n" for g in given)
    out = ""
    try:  # one run for each goal: incremental use selects another, weaker solver
        for g in goals:
            r = subprocess.run(["z3", "-smt2", "-in"], input=s + f"(assert (not {conv(g)}))(check-sat)\n", capture_output=True, text=True, timeout=limit)
            out += r.stdout
    except subprocess.TimeoutExpired:
        return False, time.time() - t, "out of time"
    return out.split() == ["unsat"] * len(goals), time.time() - t, out[:500]

"""Back ends: z3 (default, then purified nlsat), cvc5 as a second opinion for unknowns."""

import subprocess
import tempfile
import os
import z3


def _subterms(e, seen):
    stack = [e]
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen[t.get_id()] = t
        if z3.is_quantifier(t):
            continue
        stack.extend(t.children())


def has_quant(fs):
    for f in fs:
        seen = {}
        _subterms(f, seen)
        if any(z3.is_quantifier(t) for t in seen.values()):
            return True
    return False


def purify(fs):
    """Ackermannise real-valued UF applications (innermost first)."""
    fs = list(fs)
    table = {}  # (declname) -> list of (args, const)
    cons = []
    n = 0
    for _ in range(400):
        seen = {}
        for f in fs:
            _subterms(f, seen)
        target = None
        for t in seen.values():
            if (
                z3.is_app(t)
                and t.num_args() > 0
                and t.decl().kind() == z3.Z3_OP_UNINTERPRETED
            ):
                inner = {}
                for a in t.children():
                    _subterms(a, inner)
                if any(
                    z3.is_app(s)
                    and s.num_args() > 0
                    and s.decl().kind() == z3.Z3_OP_UNINTERPRETED
                    for s in inner.values()
                ):
                    continue
                target = t
                break
        if target is None:
            break
        n += 1
        nm = f"ack!{n}"
        c = (
            z3.Real(nm)
            if target.sort() == z3.RealSort()
            else z3.Int(nm)
            if target.sort() == z3.IntSort()
            else z3.Bool(nm)
        )
        fs = [z3.substitute(f, (target, c)) for f in fs]
        d = target.decl().name()
        row = (target.children(), c)
        for args, k in table.get(d, []):
            cons.append(z3.Implies(z3.And(*[a == b for a, b in zip(args, row[0])]), k == c))
        table.setdefault(d, []).append(row)
        cons = [z3.substitute(f, (target, c)) for f in cons]
        table = {
            kk: [([z3.substitute(a, (target, c)) for a in args], k2) for args, k2 in rows]
            for kk, rows in table.items()
        }
    else:
        return None
    return fs + cons


def check_valid(ctx, goal, hints=()):
    """-> (status, backend, model, detail)"""
    neg = z3.Not(goal)
    fs = list(ctx.pc) + list(hints) + sum_lemmas(ctx, [neg]) + [neg]
    s = z3.Solver()
    s.set("timeout", min(4000, ctx.shared.prove_timeout))
    s.add(*fs)
    r = s.check()
    if r == z3.unsat:
        return "discharged", "z3", None, ""
    if r == z3.sat:
        return "refuted", "z3", s.model(), ""
    reason = s.reason_unknown()
    if not has_quant(fs):
        ps = purify(fs)
        if ps is not None:
            for tac in ("qfnra-nlsat", "smt"):
                try:
                    g = z3.Then("simplify", "propagate-values", "solve-eqs", "purify-arith", tac) \
                        if tac == "qfnra-nlsat" else z3.Tactic("smt")
                    s2 = g.solver()
                    s2.set("timeout", ctx.shared.prove_timeout)
                    s2.add(*ps)
                    r2 = s2.check()
                    if r2 == z3.unsat:
                        return "discharged", f"z3/{tac}", None, ""
                    if r2 == z3.sat:
                        return "refuted", f"z3/{tac}", s2.model(), ""
                except z3.Z3Exception:
                    pass
    r3 = cvc5_check(fs, ctx.shared.prove_timeout)
    if r3 == "unsat":
        return "discharged", "cvc5", None, ""
    return "undecided", "z3", None, reason


def cvc5_check(fs, timeout_ms):
    s = z3.Solver()
    s.add(*fs)
    txt = "(set-logic ALL)\n" + s.to_smt2()
    d = os.environ.get("PYVC_SCRATCH") or tempfile.gettempdir()
    fd, path = tempfile.mkstemp(suffix=".smt2", dir=d)
    try:
        with os.fdopen(fd, "w") as fh:
            fh.write(txt)
        p = subprocess.run(
            ["cvc5", f"--tlimit={timeout_ms}", path],
            capture_output=True, text=True, timeout=timeout_ms / 1000 + 5,
        )
        out = p.stdout.strip().splitlines()
        return out[0] if out else "unknown"
    except Exception:
        return "unknown"
    finally:
        os.unlink(path)


def sum_lemmas(ctx, goals):
    """Extensionality lemmas between Sum atoms occurring in the goal."""
    if not ctx.shared.sums:
        return []
    return _lemmas(ctx, list(goals) + list(ctx.pc), [], 2)


def _inst(info, atom, k):
    """(length, body at k) of a sum atom, its parameters replaced by its arguments."""
    sub = [(p, a) for p, a in zip(info.params, atom.children())] + [(info.var, k)]
    return z3.substitute(info.n, *sub), z3.substitute(info.body, *sub)


def _lemmas(ctx, terms, extra, depth):
    sums = ctx.shared.sums
    seen = {}
    for g in terms:
        _subterms(g, seen)
    atoms = [t for t in seen.values() if z3.is_app(t) and t.decl().name() in sums]
    atoms = [t for t in atoms if not any(x.startswith(("k!", "t!", "p!")) for x in _names(t))]
    out = []
    for i in range(len(atoms)):
        for j in range(i):
            a, b = sums[atoms[i].decl().name()], sums[atoms[j].decl().name()]
            if a.kind != b.kind or a.n.get_id() != b.n.get_id():
                continue
            k = ctx.fresh("ext", "int")
            (n1, b1), (n2, b2) = _inst(a, atoms[i], k), _inst(b, atoms[j], k)
            if n1.get_id() != n2.get_id():
                continue
            here = [k >= 0, k < n1]
            goal = z3.simplify(b1 - b2, som=True)
            if z3.is_rational_value(goal):
                if goal.as_fraction() == 0:
                    out.append(atoms[i] == atoms[j])
                continue
            inner = _lemmas(ctx, [goal], extra + here, depth - 1) if depth else []
            s = z3.Solver()
            s.set("timeout", 3000)
            s.add(*ctx.pc)
            s.add(*extra)
            s.add(*here)
            s.add(*inner)
            s.add(b1 != b2)
            if s.check() == z3.unsat:
                out.append(atoms[i] == atoms[j])
    return out


def _names(t):
    from .arrays import _vars_of

    return _vars_of(t)

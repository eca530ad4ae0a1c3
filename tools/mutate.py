#!/usr/bin/env python3
"""Mutation sweep (development helper): generates small edits of the library's code, runs the checks of the edited function
against a scratch copy, and logs which check notices (or SURVIVED).   mutate.py SCRATCH_REPO LOG FILE_REGEX [STRIDE [OFFSET]]"""
import ast
import os
import re
import subprocess
import sys
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALLF = "C24 C25 C28 C29"
MAP = [  # (file regex, qualified name regex, checks in the order they are tried)
    (r"bar/base.py", r"BarBuilderBase", "C01 C05 C06 C07 C09 C36"),
    (r"bar/base.py", r"comp_bar_ohlcv", "C01 C35"), (r"bar/base.py", r"directional", "C05 C35"),
    (r"bar/base.py", r"trade_size", "C06 C35"), (r"bar/base.py", r"footprint", "C07 C35"),
    (r"bar/data_model.py", r"FootprintData|_to_object", "C08 C07 C40"),
    (r"bar/data_model.py", r"save_h5|load_trades|_keys_for|_load_single|_is_note", "C13 C14 C15 C16"),
    (r"bar/data_model.py", r"", "C10 C11 C12 C13 C15 C40"),
    (r"bar/io.py", r"H5Inspector|_find_gaps", "C15"), (r"bar/io.py", r"", "C16"),
    (r"bar/kit.py", r"", "C02 C03 C04 C01 C36"), (r"bar/logic.py", r"_time", "C02"), (r"bar/logic.py", r"cusum", "C04"),
    (r"bar/logic.py", r"", "C03"), (r"bar/utils.py", r"tick_size", "C07"), (r"bar/utils.py", r"footprint_to", "C08"),
    (r"bar/utils.py", r"merge|sort|order", "C10"), (r"bar/utils.py", r"side", "C11"), (r"bar/utils.py", r"", "C06 C16 C01 C10"),
    (r"feature/base.py", r"", "C30 C23 C24 C34 C31 C40"), (r"feature/kit.py", r"Compose", "C30 C31 C33"),
    (r"feature/kit.py", r"FeatureKit|_identity|_own|_produced", "C33 C32 C30 C31"), (r"feature/kit.py", r"", "C30 C31"),
    (r"feature/utils.py", r"Graph|graph|_flatten", "C32"), (r"feature/utils.py", r"", "C31 C32"),
    (r"transforms.py", r"CUSUM", "C26"), (r"transforms.py", r"ExternalFunction", "C31 C30 C33 C40"),
    (r"transforms.py", r"Time|Bar|Daily|ORB|Candle", "C29 C23 C31"), (r"transforms.py", r"BurstRatio|Flow|VPIN|VWAP|PriceVol", "C28 C23 C31"),
    (r"transforms.py", r"Lag|Return|ROC|Pct|RSI|Stoch|Trend|ADX|DirRun", "C24 C23 C31"), (r"transforms.py", r"Identity", "C30 C31"),
    (r"transforms.py", r"", "C25 C23 C31"),
    (r"structural", r"", "C26"), (r"core/volume.py", r"flow|vpin", "C28"), (r"core/volume.py", r"", "C27"),
    (r"core/time.py", r"", "C29"), (r"core/(correlation|reversion).py", r"", "C28"), (r"core/(momentum|trend).py", r"", "C24"),
    (r"core/utils.py", r"lag|pct", "C24"), (r"core/utils.py", r"burst", "C28"), (r"core/", r"", "C25"),
    (r"label/kit.py", r"SampleWeights", "C20 C18 C40"), (r"label/kit.py", r"", "C18 C40"), (r"label/tbm.py", r"", "C17 C40"),
    (r"label/weights.py", r"uniq", "C19 C35"), (r"label/weights.py", r"", "C20 C35"), (r"filters.py", r"", "C21"),
    (r"binance2h5", r"", "C37"),
]
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is",
       ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "*", ast.Pow: "*", ast.Mod: "+"}


def seg(src, n):
    return ast.get_source_segment(src, n)


def mutants(path, rel):
    src = open(path).read()
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    off = [0]
    for ln in lines:
        off.append(off[-1] + len(ln.encode()))
    b = src.encode()

    def pos(n, end=False):
        return off[(n.end_lineno if end else n.lineno) - 1] + (n.end_col_offset if end else n.col_offset)

    out = []

    def rep(n, text, what, q):
        out.append((q, n.lineno, what, b[:pos(n)] + text.encode() + b[pos(n, True):]))

    def visit(n, q, infn):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            q = (q + "." if q else "") + n.name
            if n.name in ("__str__", "__repr__", "memory_usage", "visualize", "_imbalance_bar_indexer", "_run_bar_indexer",
                          "comp_price_tick_size_old", "z_score_peak_filter"):
                return
            infn = infn or isinstance(n, ast.FunctionDef)
            for c in n.body:
                visit(c, q, infn)
            return
        if isinstance(n, ast.Raise) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            return
        if infn:
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and re.search(r"logger|print|warn|logging", seg(src, n)[:40]):
                return
            if isinstance(n, (ast.AugAssign, ast.Expr, ast.Continue, ast.Break)) or \
                    isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Subscript, ast.Attribute)):
                rep(n, "pass", "delete: " + seg(src, n)[:60].replace("\n", " "), q)
            if isinstance(n, ast.AugAssign) and type(n.op) in BIN:
                rep(n, f"{seg(src, n.target)} {BIN[type(n.op)]}= {seg(src, n.value)}", "augop: " + seg(src, n)[:60], q)
            if isinstance(n, (ast.If, ast.While, ast.IfExp)):
                rep(n.test, "False", "if False: " + seg(src, n.test)[:60].replace("\n", " "), q)
                if not isinstance(n, ast.While):
                    rep(n.test, "True", "if True: " + seg(src, n.test)[:60].replace("\n", " "), q)
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                o = CMP[type(n.ops[0])]
                rep(n, f"({seg(src, n.left)} {o} {seg(src, n.comparators[0])})", f"cmp {o}: " + seg(src, n)[:60], q)
            if isinstance(n, ast.BoolOp):
                o = " or " if isinstance(n.op, ast.And) else " and "
                rep(n, "(" + o.join("(" + seg(src, v) + ")" for v in n.values) + ")", "boolop: " + seg(src, n)[:60].replace("\n", " "), q)
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)) and not isinstance(n.operand, ast.Constant):
                rep(n, f"({seg(src, n.operand)})", "unary: " + seg(src, n)[:60], q)
            if isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.JoinedStr):
                o = BIN[type(n.op)]
                rep(n, f"({seg(src, n.left)} {o} {seg(src, n.right)})", f"op {o}: " + seg(src, n)[:60].replace("\n", " "), q)
            if isinstance(n, ast.Constant) and type(n.value) in (int, float) and abs(n.value) < 1e6:
                rep(n, repr(n.value + 1), f"const {n.value}+1 in: " + lines[n.lineno - 1].strip()[:60], q)
            if isinstance(n, ast.Constant) and type(n.value) is bool:
                rep(n, repr(not n.value), f"const not {n.value} in: " + lines[n.lineno - 1].strip()[:60], q)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "sort_values", "sort_index", "astype",
                                                                                                 "sort", "reset_index") and isinstance(n.func.value, ast.expr):
                rep(n, seg(src, n.func.value), "uncall: " + seg(src, n)[:60].replace("\n", " "), q)
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.JoinedStr) or isinstance(n, (ast.AnnAssign,)) and c is n.annotation:
                continue
            visit(c, q, infn)

    visit_body = [c for c in tree.body if isinstance(c, (ast.FunctionDef, ast.ClassDef))]
    for c in visit_body:
        visit(c, "", False)
    return out


def main():
    repo, log, rx = sys.argv[1:4]
    stride = int(sys.argv[4]) if len(sys.argv) > 4 else 1
    offset = int(sys.argv[5]) if len(sys.argv) > 5 else 0
    files = sorted(f for f in subprocess.check_output(["git", "-C", repo, "ls-files", "finmlkit", "scripts"], text=True).split()
                   if f.endswith(".py") and re.search(rx, f))
    env = dict(os.environ, MC_REPO=repo, MC_FAILFAST="1", PYTHONDONTWRITEBYTECODE="1")
    n = 0
    for rel in files:
        path = os.path.join(repo, rel)
        orig = open(path, "rb").read()
        for k, (q, line, what, new) in enumerate(mutants(path, rel)):
            if k % stride != offset % stride:
                continue
            try:
                compile(new, rel, "exec")
            except SyntaxError:
                continue
            checks = next((c for f, r, c in MAP if re.search(f, rel) and re.search(r, q)), None)
            open(path, "wb").write(new)
            t0, verdict = time.time(), "SURVIVED"
            try:
                for c in checks.split():
                    p = subprocess.run([V + "/bin/check", c], env=env, capture_output=True, text=True)
                    if p.returncode == 1 and f"VIOLATION property={c} " in p.stdout:
                        verdict = c
                        break
                    if p.returncode != 0:
                        verdict = f"{c}-exit{p.returncode} " + p.stdout.strip().splitlines()[-1][-150:]
                        break
            finally:
                open(path, "wb").write(orig)
            with open(log, "a") as f:
                f.write(f"{verdict}\t{rel}:{line}\t{q}\t{what}\t{time.time() - t0:.0f}s\n")
            n += 1


main()

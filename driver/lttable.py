"""Rows for the conformance suite's multiprecision references, comparison and input generators
(routes mp, cmp, gen): the same layout as table.py, one row per routine of the suite."""
import table

NAMES = {"h": "f16", "s": "f32", "d": "f64", "q": "f128", "i": "i32", "u": "u32", "l": "i64", "L": "u64", "x": "i128", "X": "u128"}
rows = []  # (op, signature, routine)

for route, op, sig, rust, c in table.rows:
    if route == "libm" and not op.endswith("_rx"):
        rows.append((op, sig, rust.split("::")[-1]))
for t in "hsdq":
    for op in "add sub mul div".split():
        if (op, t) != ("div", "h"):
            rows.append((op, f"{t}{t}>{t}", op + NAMES[t]))
    for op in "eq ge gt le lt ne unord".split():
        rows.append(("cmpb_" + op, f"{t}{t}>b", op + NAMES[t]))
    if t != "h":
        rows.append(("powi", f"{t}i>{t}", "powi" + NAMES[t]))
        for it in "ilxuLX":
            rows.append(("itof", f"{it}>{t}", f"itof_{NAMES[it]}_{NAMES[t]}"))
            rows.append(("ftoi", f"{t}>{it}", f"ftoi_{NAMES[t]}_{NAMES[it]}"))
order = "hsdq"
for a in order:
    for b in order:
        if order.index(a) < order.index(b):
            rows.append(("extend", f"{a}>{b}", f"extend_{NAMES[a]}_{NAMES[b]}"))
        elif order.index(a) > order.index(b):
            rows.append(("narrow", f"{a}>{b}", f"narrow_{NAMES[a]}_{NAMES[b]}"))
for it in "ilxuLX":
    n = NAMES[it]
    rows.append(("idiv", f"{it}{it}>{it}", "idiv_" + n))
    rows.append(("irem", f"{it}{it}>{it}", "imod_" + n))
    rows.append(("idivrem", f"{it}{it}>{it}{it}", "idivmod_" + n))
    if it in "xX":
        for op in ("iadd", "isub"):
            rows.append((op, f"{it}{it}>{it}", f"{op}_{n}"))
            rows.append((op + "o", f"{it}{it}>{it}b", f"{op}o_{n}"))
    if it in "ilxX":
        rows.append(("imulo", f"{it}{it}>{it}b", "imulo_" + n))
    if it in "Lx":
        rows.append(("imul", f"{it}{it}>{it}", "imul_" + n))
    if it in "uLX":
        rows.append(("ishl", f"{it}u>{it}", "ashl_" + n))
        rows.append(("ishr", f"{it}u>{it}", "lshr_" + n))
        rows.append(("clz", f"{it}>z", "leading_zeros_" + n))
        rows.append(("ctz", f"{it}>z", "trailing_zeros_" + n))
    else:
        rows.append(("ishr", f"{it}u>{it}", "ashr_" + n))


def rust_source(kind, skip=()):
    """Thunks and table for one route; `skip` holds indices of rows to leave out."""
    out, tab = [], []
    entry = 'Entry {{ route: c"{}".as_ptr() as _, name: c"{}".as_ptr() as _, op: c"{}".as_ptr() as _, sig: c"{}".as_ptr() as _, f: {} }},'
    for i, (op, sig, name) in enumerate(rows):
        if i in skip or kind == "mp" and op == "nextafter":  # the suite has no reference for it
            continue
        out.append(f"row!(t{i}, {name});")
        tab.append(entry.format(kind, f"{kind}:{name}", op, sig, f"t{i}"))
    if kind == "gen":
        tab.append(entry.format("line", "seed", "seed", "", "line::seed"))
        for t in "hsdq":
            tab.append(entry.format("line", "step " + NAMES[t], "step", t, f"line::{t}::step"))
            tab.append(entry.format("line", "logspace " + NAMES[t], "space", t, f"line::{t}::space"))
        for t in "ilxuLX":
            tab.append(entry.format("line", "linear_ints " + NAMES[t], "space", t, f"line::{t.replace('L', 'ul').replace('X', 'ux')}::space"))
    return "\n".join(out + ["pub static TABLE: &[Entry] = &["] + tab + ["];"]) + "\n"

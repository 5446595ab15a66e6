from framework import *
GEN = 'SPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS Slots = 8\n Foreign = 2\n FSize = 40\n Depth = %d\n Flavor = "%s"\n'
TRC = "CONSTANTS Slots = 8\n Foreign = 2\n FSize = 40\n"
MOD = "SPECIFICATION Spec\nINVARIANT Independent\nINVARIANT InMemory\nINVARIANT OwnMemory\nINVARIANT Copied\nINVARIANT Order\nCHECK_DEADLOCK FALSE\nCONSTANTS Slots = %d\n Foreign = 1\n FSize = 4\n Steps = %d\n Wide = %s\n"


def token(x): return (".".join(map(str, x)) or "-") if isinstance(x, list) else str(x)


def line(op): return " ".join(map(token, op)) + "\t" + json.dumps(op, separators=(",", ":"))


def run(c):
    plain, san = Config("scalar", "cb2"), Config("scalar", "cb2", san=True)
    exes = build_all([(k, ["arrays.cc"], {}) for k in (plain, san)])
    c.model("ArraysModel", MOD % ((3, 4, "TRUE") if THOROUGH else (2, 4, "TRUE")), workers=8)
    n, depth = (150, 120) if THOROUGH else (30, 80)
    items = []
    for ty in ("int", "double", "real", "tr"):
        for j, h in enumerate(c.generate("ArraysGen", GEN % (depth, ty), n, depth + 4)):
            sp = c.write(f"script-{ty}-{j}", "\n".join(map(line, h)) + "\n")
            items.append(Run(exes[1 if j % 3 == 0 else 0], ["--script=" + sp, "--type=" + ty], label=f"arrays of {ty}, {'sanitized, ' if j % 3 == 0 else ''}history {j}"))
    c.conform_batched(items, "ArraysTrace", size=10, cfg=TRACE_CFG + TRC)

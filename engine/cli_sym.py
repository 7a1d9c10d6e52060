"""Development helper: run symbolic units by name."""
import importlib, json, pkgutil, sys, time
import contracts
from engine.base import REGISTRY


def load_all():
    for m in pkgutil.iter_modules(contracts.__path__):
        importlib.import_module("contracts." + m.name)


def main():
    from engine.contract import run_unit, stubs_for
    load_all()
    v = "-v" in sys.argv
    for n in [a for a in sys.argv[1:] if not a.startswith("-")]:
        for name, u in REGISTRY.items():
            if name == n or name.startswith(n + ".") :
                for c in u.cases:
                    r = run_unit(u, c, stubs_for(u, REGISTRY), u.budget)
                    print(name, c, r["verdict"], f"{r['discharged']}/{r['obligations']}", "paths", r["paths"], r["backends"], f"{r['wall']:.1f}s", r["unsupported"] or "", set(r["notes"]) or "")
                    if r["unsupported"] and r.get("tb") : print(r["tb"][-2500:] if v else r["tb"][-300:])
                    for x in r["refuted"][:6]: print("  REFUTED", x["name"], x["t"], x["goal"][:300] if v else "")
                    for x in r["unknown"][:6]: print("  UNKNOWN", x["name"], x["t"], x["goal"][:300] if v else "")
                    if v: print(json.dumps(r["models"])[:1500])


if __name__ == "__main__":
    main()

import importlib
CHECKS = {}
for m in ("polyfill", "approx", "wrap", "vec", "stats", "quat"):
    try:
        m = importlib.import_module(m)
    except ModuleNotFoundError as e:
        if e.name != m:
            raise
        continue
    for k, f in list(vars(m).items()):
        if k[0] == "c" and k[1:].isdigit() and getattr(f, "__module__", "") == m.__name__:
            CHECKS[k.upper()] = f

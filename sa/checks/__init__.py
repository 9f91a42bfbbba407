import importlib
REG = {}
MODS = ["header", "keys", "server", "host", "usb", "log", "serial", "schema", "icd", "chan", "setup", "connect"]
def check(pid, explanation, assumptions=()):
    def deco(f):
        REG[pid] = (f, explanation, list(assumptions)); return f
    return deco
def load(pid):
    import sys
    for m in MODS:
        try: importlib.import_module("checks." + m)
        except ModuleNotFoundError as e:
            if e.name != "checks." + m: raise
    return REG[pid]

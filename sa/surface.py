"""The public operations of the field layer (path -> argument types), so that a check of "every operation" means these: a helper somebody adds is
judged where the listed operations use it, not on arbitrary arguments it was never meant for."""
import json, os
_S = json.load(open(os.path.join(os.path.dirname(__file__), 'surface.json')))
def in_surface(P, f):
    sigs = _S.get(f.path)
    return sigs is not None and [P.ty[t]['name'] for t in f.locals[1:1 + f.argc]] in sigs

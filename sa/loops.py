"""Loop structure of MIR functions (natural loops found on the flow graph)."""
def headers(fn):
    if fn._hdr is None:
        succ = fn.succ(); seen = {}; hd = set()
        st = [(0, iter(succ[0]))]; seen[0] = 1
        while st:
            b, it = st[-1]
            for y in it:
                if y not in seen:
                    seen[y] = 1; st.append((y, iter(succ[y]))); break
                elif seen[y] == 1: hd.add(y)
            else:
                seen[b] = 2; st.pop()
        fn._hdr = hd
    return fn._hdr

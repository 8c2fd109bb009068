def flatten(n):
    items = []
    def flat(s):
        while s is not None and s["k"] in ("case", "default"):
            if s["k"] == "case":
                items.append(("L", (s["v"],) if "v2" not in s else tuple(range(s["v"], s["v2"] + 1))))
            else: items.append(("D",))
            s = s["s"]
        if s is not None: items.append(("S", s))
    b = n["b"]
    for s in (b["b"] if b["k"] == "blk" else [b]): flat(s)
    groups = []; i = 0; default_at = None
    while i < len(items):
        if items[i][0] in ("L", "D"):
            vals = []; j = i; hasd = False
            while j < len(items) and items[j][0] in ("L", "D"):
                if items[j][0] == "L": vals += items[j][1]
                else: hasd = True
                j += 1
            if hasd: default_at = j
            if vals: groups.append((tuple(vals), j))
            i = j
        else: i += 1
    return items, groups, default_at

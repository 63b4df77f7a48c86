#!/usr/bin/env python3
"""Prints a replay file with numbers decoded: which event was refused."""
import json, struct, sys
def dec(v):
    if isinstance(v, list):
        if len(v) == 2 and all(isinstance(a, int) for a in v) and (abs(v[0]) > 1 << 16 or v[0] == 0 == v[1]):
            return round(struct.unpack(">d", struct.pack(">ii", *v))[0], 9)
        return [dec(a) for a in v]
    if isinstance(v, dict):
        return {k: dec(a) for k, a in v.items()}
    return v
d = json.load(open(sys.argv[1]))
print(json.dumps(dec({k: v for k, v in d.items() if k != "script"}))[:int(sys.argv[2]) if len(sys.argv) > 2 else 3000])
s = d.get("script")
print("\n".join(s[-6:] if isinstance(s, list) else s.splitlines()[-6:])[:3000])

"""P25: facts about single numbers, and the named constants."""
import vk
from arrays import f32

RANGES = {"i8": (-128, 127), "u8": (0, 255), "i16": (-32768, 32767), "u16": (0, 65535), "i32": (-2 ** 31 + 1, 2 ** 31 - 1), "u32": (0, 2 ** 31 - 1),
          "i64": (-2 ** 31 + 1, 2 ** 31 - 1), "u64": (0, 2 ** 31 - 1), "d": (-2 ** 31 + 1, 2 ** 31 - 1), "f": (-2 ** 24, 2 ** 24)}
NAMES = """half third twothirds two_thirds sixth three_quarters root_two root_three half_root_two ln_two ln_ln_two root_ln_four one_div_root_two pi half_pi third_pi
sixth_pi two_pi two_thirds_pi three_quarters_pi four_thirds_pi one_div_two_pi one_div_root_two_pi root_pi root_half_pi root_two_pi log_root_two_pi one_div_root_pi
root_one_div_pi pi_minus_three four_minus_pi pi_pow_e pi_sqr pi_sqr_div_six pi_cubed cbrt_pi one_div_cbrt_pi e exp_minus_half e_pow_pi root_e log10_e one_div_log10_e
ln_ten degree radian sin_one cos_one sinh_one cosh_one phi ln_phi one_div_ln_phi euler one_div_euler euler_sqr zeta_two zeta_three catalan glaisher khinchin
extreme_value_skewness rayleigh_skewness rayleigh_kurtosis rayleigh_kurtosis_excess two_div_pi root_two_div_pi""".split()
SPECIAL = [0.0, -0.0, 1.0, -1.0, float("inf"), float("-inf"), float("nan"), 5e-324, -5e-324, 2.2250738585072014e-308, 2.225073858507201e-308, 1.1754943508222875e-38,
           1.1754942106924411e-38, 1e-40, -1e-45, 1.7976931348623157e308, 3.4028234663852886e38, -1e-310]


def probe(c, name):
    return c.build("numbers.cpp"), "NumbersTrace"


def number(rng):
    return rng.choice([rng.uniform(-10, 10), rng.uniform(-1e6, 1e6), float(rng.randint(-50, 50)), rng.uniform(-1, 1) * 10.0 ** rng.randint(-9, 9), rng.randint(-9, 9) + rng.choice([.5, .25, -1e-3])])


def small(rng, n):
    out = []
    for _ in range(n):
        t = rng.choice("fd")
        x, y = number(rng), number(rng)
        if t == "f":
            x, y = f32([x, y])
        k = rng.choice(["one", "distance", "distance", "complex", "kind", "limits", "apart"])
        if k == "one":
            out.append({"op": k, "t": t, "x": x})
        elif k == "distance":
            m = rng.choice(["manhattan", "euclidean", "logarithmic"])
            if m == "logarithmic":
                x, y = x or 1.0, y or 2.0
            elif rng.random() < .1:
                y = x
            out.append({"op": k, "t": t, "m": m, "x": x, "y": y})
        elif k == "complex":
            if rng.random() < .2:
                x = 0.0
            if rng.random() < .2 and x > 0:
                y = 0.0
            out.append({"op": k, "t": t, "x": x, "y": y})
        elif k == "apart":
            ty = rng.choice(["i32", "i64", "u32", "u64", "u16"])
            lo = 0 if ty[0] == "u" else -20000
            a, b = (rng.choice([0, rng.randint(lo, 20000), rng.randint(0, 200)]) for _ in "ab")
            m = rng.choice(["manhattan", "euclidean"])
            if ty == "u16" and m == "euclidean" and abs(a - b) > 200:
                m = "manhattan"
            out.append({"op": k, "t": ty, "m": m, "n": a, "k": b})
        else:
            v = [z for z in SPECIAL + [x] if t == "d" or abs(z) <= 3.5e38 or z != z or z in (float("inf"), float("-inf"))]
            x, y = rng.choice(v), rng.choice(v)
            if t == "f":
                x, y = f32([x, y])
            out.append({"op": k, "t": t, "x": x, "y": y} if k == "limits" else {"op": k, "t": t, "x": x})
    return out


def is_prime(n):
    return n > 1 and all(n % d for d in range(2, int(n ** .5) + 1))


def check(c):
    q = c.quick
    c.model("NumbersModel", "CONSTANT Max = %d" % (1500 if q else 12000), ["Powers", "Primes", "Parity", "Related"], label="laws of whole numbers and of the constants")
    exe = c.build("numbers.cpp")
    sc = [vk.script([{"op": "constant", "t": t, "name": n} for n in NAMES for t in ("f", "d", "l")])]
    # every number of the small types, every small number of the others
    every = []
    for t, (lo, hi) in RANGES.items():
        top = {"i8": 127, "u8": 255}.get(t, 1200 if q else 65535)
        every += [{"op": "whole", "t": t, "n": n} for n in range(max(lo, -200 if q else -2000), min(hi, top) + 1)]
    for k in range(0, len(every), 200):
        sc.append(vk.script(every[k:k + 200]))
    # around powers of two, around squares of primes, and large primes
    out = []
    primes = [p for p in range(3, 46341 if not q else 3000) if is_prime(p)]
    for k in range(3, 31):
        out += [{"op": "whole", "t": t, "n": s * (2 ** k + d)} for d in (-1, 0, 1) for t in ("i32", "u32", "i64", "u64", "d") for s in (1, -1)
                if not (t[0] == "u" and s < 0) and 2 ** k + d < 2 ** 31]
    for p in c.rng.sample(primes, min(len(primes), 60 if q else 2000)) + primes[-5:]:
        out += [{"op": "whole", "t": c.rng.choice(["i32", "u64", "i64"]), "n": p * p}]
        r = c.rng.choice(primes)
        out += [{"op": "whole", "t": "u32", "n": p * r}]
    out += [{"op": "whole", "t": t, "n": n} for n in (2147483647, 2147483629, 2147302921, 2147302920, 46337 * 46337, 46337 * 46327, 46349 * 46327) for t in ("i32", "u64", "d") if n < 2 ** 31]
    for _ in range(100 if q else 3000):
        t = c.rng.choice(list(RANGES))
        lo, hi = RANGES[t]
        out.append({"op": "whole", "t": t, "n": c.rng.randint(lo, hi)})
    for k in range(40, 63):
        out += [{"op": "large", "t": t, "k": k, "d": d} for t in ("i64", "u64") for d in [0, 1, -1, c.rng.randint(1, 2 ** 20), -c.rng.randint(1, 2 ** 20), 2 ** 20, 2 ** 31 - 1, 1 - 2 ** 31] if not (k < 50 and abs(d) > 2 ** 21)]
    big = [46349, 65537, 99991, 1000003, 2147483647, 16777259, 4194301]
    out += [{"op": "product", "a": a, "b": b} for a in big + [2, 3, 5, 7] for b in big if a * b < 2 ** 63 and (min(a, b) < 2 ** 25 or not q)]
    c.rng.shuffle(out)
    for k in range(0, len(out), 60):
        sc.append(vk.script(out[k:k + 60]))
    sc += [vk.script([{"op": "kind", "t": t, "x": f32([x])[0] if t == "f" else x} for x in SPECIAL for t in "fd" if t == "d" or abs(x) < 4e38 or x != x or abs(x) == float("inf")])]
    sc += [vk.script(small(c.rng, 40)) for _ in range(100 if q else 3000)]
    c.conform(exe, "NumbersTrace", sc, label="numbers")
    c.assumptions = ["whole numbers that the type represents (as do their next powers of two, at least one)", "logarithmic distance of numbers other than zero"]

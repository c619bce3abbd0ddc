#!/usr/bin/env python3
"""Generates spec/Nums.tla: the number line used by the specification.

TLC has 32-bit integers only, so numbers are texts (tokens); this table gives the facts about them that the
specification uses: their order as values (Rank; equal numbers have equal rank) and the Rust/JSON types they fit."""
from decimal import Decimal
import math, sys
TOK = ["$-inf", "-1.7976931348623157e308", "-1e19", "-9223372036854775809", "-9223372036854775808", "-9223372036854775807",
       "-4294967296", "-1000.5", "-5", "-2", "-1.5", "-1", "-0.5", "-5e-324", "-0.0", "0", "0.0", "5e-324",
       "2.2250738585072014e-308", "1e-7", "0.1", "0.3", "0.5", "1", "1.0", "1.5", "2", "2.0", "2.5", "3", "4", "5", "5.0", "7", "10",
       "15", "16", "17", "32", "64", "100", "128", "200", "255", "256", "404", "500", "512", "600", "1023", "1024", "1025", "2048", "65535", "65536", "1e5",
       "4294967295", "4294967296", "9007199254740993", "9223372036854775806", "9223372036854775807", "9223372036854775808",
       "1e19", "18446744073709551615", "18446744073709551616", "1e300", "1.7976931348623157e308", "$inf", "$nan"]
def val(t):
    if t == "$nan": return None
    if t == "$inf": return Decimal("Infinity")
    if t == "$-inf": return Decimal("-Infinity")
    return Decimal(t)
def f64(t):
    v = val(t)
    return None if v is None else float(v)
vals = sorted({val(t) for t in TOK if val(t) is not None})
rank = {v: i for i, v in enumerate(vals)}
# as binary64 values some neighbours collapse
fvals = sorted({f64(t) for t in TOK if f64(t) is not None})
frank = {v: i for i, v in enumerate(fvals)}
def isint(t): return t.lstrip("-").isdigit()
def fits(t, lo, hi): return isint(t) and lo <= int(t) <= hi
out = ["---------------------------- MODULE Nums ----------------------------",
       "(* Generated by tools/gen_nums.py: facts about number tokens. *)", "EXTENDS Integers, TLC", ""]
def fn(name, items):
    out.append(f"{name} ==")
    out.append("  " + " @@ ".join(f'("{k}" :> {v})' for k, v in items))
    out.append("")
def st(name, items):
    out.append(f"{name} == {{" + ", ".join(f'"{k}"' for k in items) + "}")
    out.append("")
st("NumTokens", TOK)
st("Special", [t for t in TOK if t.startswith("$")])
fn("Rank", [(t, rank[val(t)]) for t in TOK if val(t) is not None])
fn("FRank", [(t, frank[f64(t)]) for t in TOK if f64(t) is not None])
st("IntTokens", [t for t in TOK if isint(t)])
for name, lo, hi in [("I64", -2**63, 2**63-1), ("U64", 0, 2**64-1), ("U32", 0, 2**32-1), ("U16", 0, 65535), ("U8", 0, 255)]:
    st(name, [t for t in TOK if fits(t, lo, hi)])
st("NonZeroU64", [t for t in TOK if fits(t, 1, 2**64-1)])
st("F64", [t for t in TOK])
st("FiniteF64", [t for t in TOK if f64(t) is not None and math.isfinite(f64(t))])
st("PositiveF64", [t for t in TOK if f64(t) is not None and f64(t) > 0])
out.append("=" * 70)
open(sys.argv[1], "w").write("\n".join(out) + "\n")
